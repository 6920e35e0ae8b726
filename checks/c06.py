"""C06: a checkpoint is a barrier over all nodes."""
import os

from c01 import build
from c03 import content, load
from mc import env, jobs, sched, space, world

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all event sequences (reports, duplicates, chunk requests, process end/crash) on the real ChunkDistributor against a barrier model; schedules of concurrent reports under a controlled scheduler"
RULE = ("a case = topology x first events; all sequences of events up to the depth bound {node reports, node reports twice, node takes a chunk, persisting process ends, persisting process dies}, "
        "merged when reference model and implementation state agree; after every event all status queries are compared; every checkpoint reported complete is restored; "
        "a second harness runs the reports of all nodes as concurrent threads in all schedules up to the preemption bound; states = model states, transitions = events")
ASSUMPTIONS = ["the persisting process is a separate task that can end or die at any event boundary (crash points inside it: C07)"]

LAYOUT = ["AABBAABB", "ABAB"]
M = space  # noqa


class ManualProcess:
    """a process whose end is an event of the exploration"""

    started = []

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        import copy

        self.t, self.a, self.k = target, args, kwargs or {}
        self._copy = copy.deepcopy
        self.daemon = daemon
        self.exitcode = None
        self.pid = 4242
        self.live = False

    def start(self):
        self.a, self.k = self._copy(self.a), self._copy(self.k)  # fork
        self.live = True
        ManualProcess.started.append(self)

    def finish(self):
        self.live = False
        try:
            self.t(*self.a, **self.k)
            self.exitcode = 0
        except Exception:  # noqa: BLE001
            self.exitcode = 1

    def die(self):
        self.live = False
        self.exitcode = -9

    def is_alive(self):
        return self.live

    def join(self, timeout=None):
        assert not self.live, "joined a running process"

    def terminate(self):
        self.die()

    kill = terminate

    def close(self):
        pass


class Model:
    def __init__(self, top):
        self.dp, self.nodes = top
        self.all = {(g, n) for g in range(self.dp) for n in range(self.nodes)}
        self.reported = set()
        self.id = None
        self.ids = []  # all ids in order
        self.pos = {a: 0 for a in self.all}
        self.procs = []  # [id, state, positions]
        self.failed = set()

    def key(self):
        return (tuple(sorted(self.reported)), len(self.ids), self.id is None, tuple(sorted(self.pos.items())),
                tuple((p[1], self.ids.index(p[0])) for p in self.procs), tuple(sorted(self.ids.index(i) for i in self.failed)))


class Barrier:
    name = "barrier"
    cpu_limit = 400
    wall_limit = 500

    def setup(self):
        self.w = world.world()

    def events(self, top, m):
        ev = []
        for a in sorted(m.all):
            ev.append(("report", a))
            if m.pos[a] < 2:
                ev.append(("take", a))
        for i, p in enumerate(m.procs):
            if p[1] == "running":
                ev.append(("end", i))
                ev.append(("die", i))
        return ev

    def cases(self, tier):
        deep = tier == "thorough"
        for cached in (False, True):
            for top, depth in (((1, 1), 7), ((1, 2), 10 if deep else 9 - cached), ((2, 1), 10 if deep else 8 - cached), ((2, 2), 8 if deep else 7 - cached)):
                acts = top[0] * top[1] * 2
                for first in range(acts):
                    for second in range(acts):
                        yield {"top": list(top), "depth": depth, "first": [first, second], "cached": cached}

    def run(self, case, rec):
        from mixtera.core.query.query_result import QueryResult

        table, _, _ = build(self.w, LAYOUT, "single")
        mk = lambda: QueryResult(self.w.cmdc, table, jobs.mixture({"kind": "arbitrary", "size": 2}))  # noqa: E731
        self.ref = [content(c) for c in mk()]
        self.root = env.fresh_dir("c06")
        self.n = 0
        self.cache = None
        if case["cached"]:
            self.cache = os.path.join(self.root, "cache")
            os.mkdir(self.cache)
            from pathlib import Path

            self.cache = Path(self.cache)
            mk().to_cache(self.cache)
        self.mk = mk
        try:
            with jobs.inline_processes(ManualProcess):
                self.explore(case, rec)
        finally:
            env.rmtree(self.root)

    def explore(self, case, rec):
        seen = set()
        frontier = [[]]
        for level in range(case["depth"]):
            new = []
            for path in frontier:
                evs = self.events(tuple(case["top"]), path[-1][1] if path else Model(case["top"]))
                if level < 2:
                    if case["first"][level] >= len(evs):
                        continue
                    evs = [evs[case["first"][level]]]
                for ev in evs:
                    m, k, ok = self.execute(case, [p[0] for p in path] + [ev], rec)
                    if not ok:
                        return
                    if k in seen:
                        continue
                    seen.add(k)
                    rec.state((tuple(case["top"]), case["cached"], k))
                    new.append([(e, None) for e, _ in path] + [(ev, m)])
            frontier = new

    def execute(self, case, path, rec):
        from pathlib import Path

        from mixtera.core.query.chunk_distributor import ChunkDistributor

        ManualProcess.started = []
        dp, nodes = case["top"]
        d = ChunkDistributor(dp, nodes, 1, self.mk(), "job", cached_query=self.cache)
        self.n += 1
        cdir = Path(self.root) / f"c{self.n}"
        m = Model(case["top"])
        where = f"groups x nodes={case['top']} cached={case['cached']} events={path}: "

        def bad(key, msg):
            rec.fail(key, where + msg)
            return m, None, False

        try:
            for ev in path:
                kind, x = ev
                rec.step()
                if kind == "take":
                    got = content(load(d.next_chunk_for(x[0], x[1], 0, False)))
                    m.pos[x] += 1
                elif kind == "report":
                    nstarted = len(ManualProcess.started)
                    try:
                        got = d.checkpoint(x[0], x[1], [0], cdir, True)
                    except Exception as e:  # noqa: BLE001
                        got = e
                    if x in m.reported:
                        if not isinstance(got, Exception):
                            return bad("duplicate-accepted", f"{x} reported twice in a round and got {got}")
                        if len(ManualProcess.started) != nstarted:
                            return bad("started", "a duplicate report started persisting")
                    else:
                        m.reported.add(x)
                        if m.id is None and not isinstance(got, Exception):
                            if not isinstance(got, str) or got in m.ids:
                                return bad("id", f"a new round got the id {got!r}, earlier rounds: {m.ids}")
                            m.id = got
                            m.ids.append(got)
                        full = m.reported == m.all
                        consistent = all(m.pos[(g, n)] == m.pos[(g, 0)] for g, n in m.all)
                        if full and not consistent:
                            if not isinstance(got, Exception):
                                return bad("contradiction", f"nodes of a group are at different chunks {m.pos}, but the checkpoint was accepted ({got})")
                            if len(ManualProcess.started) != nstarted:
                                return bad("started", "an inconsistent checkpoint started persisting")
                            if m.id is not None:
                                m.failed.add(m.id)
                            elif len(m.all) == 1:
                                m.ids.append(f"?{len(m.ids)}")
                        else:
                            if isinstance(got, Exception):
                                return bad("rejected", f"report of {x} rejected: {type(got).__name__}: {got}")
                            if got != m.id:
                                return bad("id", f"{x} got the id {got}, the round is {m.id}")
                            n = len(ManualProcess.started) - nstarted
                            if n != (1 if full else 0):
                                return bad("started", f"{n} persisting processes started although {sorted(m.reported)} of {sorted(m.all)} reported")
                            if full:
                                m.procs.append([m.id, "running", dict(m.pos)])
                        if full:
                            m.reported, m.id = set(), None
                elif kind == "end":
                    p = ManualProcess.started[x]
                    p.finish()
                    m.procs[x][1] = "done" if p.exitcode == 0 else "failed"
                    # nothing removed its directory, nobody else writes: it has to succeed
                    if p.exitcode != 0:
                        return bad("persist-failed", "the persisting process failed without any fault")
                elif kind == "die":
                    ManualProcess.started[x].die()
                    m.procs[x][1] = "died"
                # observations
                for cid in m.ids + ["chkpnt_77"]:
                    st = next((p for p in m.procs if p[0] == cid), None)
                    for on_disk in (False, True):
                        try:
                            got = d.checkpoint_completed(cid, on_disk)
                        except Exception:  # noqa: BLE001
                            got = "error"
                        if st is None:
                            good = got is False or (got == "error" and cid in m.failed)
                        elif not on_disk:
                            good = got is True or (got == "error" and st[1] == "died")
                        elif st[1] == "running":
                            good = got is False
                        elif st[1] == "done":
                            good = got is True
                        else:
                            good = got == "error"
                        if not good:
                            return bad("completed", f"checkpoint_completed({cid}, on_disk={on_disk}) = {got}, state of that round: {st}, rejected: {sorted(m.failed)}")
            # everything that is reported complete can be restored, with the positions of its round
            last = path[-1]
            if last[0] == "end":
                for cid, state, pos in m.procs:
                    if state != "done":
                        continue
                    r = ChunkDistributor.from_checkpoint(cdir, cid, "job", None)
                    rec.trace()
                    for g in range(dp):
                        c0 = None
                        for n in range(nodes):
                            c = content(load(r.next_chunk_for(g, n, 0, False)))
                            if c0 is not None and c != c0:
                                return bad("restore", f"restored {cid}: nodes of group {g} get different chunks")
                            c0 = c
                            if pos[(g, n)] == 0 and c not in self.ref:
                                return bad("restore", f"restored {cid}: foreign chunk {c}")
                    total = sum(max(0, p - 1) for (g, n), p in pos.items() if n == 0)
                    rest = []
                    while True:
                        try:
                            rest.append(content(load(r.next_chunk_for(0, 0, 0, False))))
                        except StopIteration:
                            break
                    # with one group, what remains is exactly the tail of the result
                    if dp == 1:
                        want = self.ref[total + 1:]
                        if rest != want:
                            return bad("restore", f"restored {cid} continues with {len(rest)} chunks, expected {len(want)}")
            rec.outcome((str(case["top"]), m.key()))
            return m, m.key(), True
        finally:
            import shutil

            shutil.rmtree(cdir, ignore_errors=True)


CONC = (
    (((1, 2), 3, 2), ((2, 1), 3, 2), ((1, 3), 2, 1), ((1, 3), 1, 2), ((2, 2), 0, 1)),
    (((1, 2), 4, 2), ((2, 1), 4, 2), ((1, 3), 3, 1), ((1, 3), 2, 2), ((2, 2), 1, 1), ((2, 2), 0, 2)),
)


class Concurrent:
    """The reports of all nodes of one or two rounds run as concurrent threads: all schedules up to the bound."""

    name = "concurrent-reports"
    cpu_limit = 700
    wall_limit = 840

    def setup(self):
        self.w = world.world()

    def cases(self, tier):
        deep = tier == "thorough"
        for top, bound, rounds in CONC[1 if deep else 0]:
            yield {"top": list(top), "bound": bound, "rounds": rounds}

    def run(self, case, rec):
        from pathlib import Path

        import mixtera.core.query.chunk_distributor as cd
        import mixtera.core.query.query_result as qm

        table, _, _ = build(self.w, LAYOUT, "single")
        root = env.fresh_dir("c06")
        cnt = [0]

        def one(chooser):
            ManualProcess.started = []
            cnt[0] += 1
            cdir = Path(root) / f"c{cnt[0]}"
            with sched.patched([cd, qm]), jobs.inline_processes(ManualProcess):
                d = cd.ChunkDistributor(case["top"][0], case["top"][1], 1, qm.QueryResult(self.w.cmdc, table, jobs.mixture({"kind": "arbitrary", "size": 2})), "job")
                got = {}
                barrier = {"n": 0}
                total = case["top"][0] * case["top"][1]

                def node(g, n):
                    def f():
                        for rnd in range(case["rounds"]):
                            got[(rnd, g, n)] = d.checkpoint(g, n, [0], cdir, True)
                            # a node continues with the next round once the checkpoint is in memory
                            for _ in range(200):
                                if d.checkpoint_completed(got[(rnd, g, n)], False):
                                    break
                                sched._pt(lambda: len(ManualProcess.started) > rnd)
                    return f

                s = sched.Scheduler(chooser)
                tasks = [s.spawn(node(g, n)) for g in range(case["top"][0]) for n in range(case["top"][1])]
                s.run()
            import shutil

            shutil.rmtree(cdir, ignore_errors=True)
            return got, [t.exc for t in tasks], len(ManualProcess.started)

        def on(res, choices):
            got, excs, started = res
            rec.trace()
            rec.step(len(choices))
            rec.state((str(case["top"]), tuple(choices)))
            where = f"{case} schedule={choices}: "
            for e in excs:
                if e is not None:
                    rec.fail("rejected", where + f"{type(e).__name__}: {e}")
                    return False
            per = [{v for (r, _, _), v in got.items() if r == rnd} for rnd in range(case["rounds"])]
            if any(len(p) != 1 for p in per) or len(set.union(*per)) != case["rounds"]:
                rec.fail("id", where + f"ids per round {per}")
                return False
            if started != case["rounds"]:
                rec.fail("started", where + f"{started} persisting processes for {case['rounds']} rounds")
                return False
            rec.outcome(str(sorted(got.items())))
            return True

        try:
            n, done = sched.explore(one, case["bound"], limit=80000, on_run=on)
            rec.count("schedules", n)
            rec.count(f"schedules {case}", n)
            if not done and not rec.fails:
                rec.cap("concurrent-reports: 80000 schedules")
        finally:
            env.rmtree(root)


class Many:
    """Long histories: up to 101 rounds in one process, possibly continued after restoring one of them, possibly twice."""

    name = "many-rounds"
    cpu_limit = 500
    wall_limit = 600

    def setup(self):
        self.w = world.world()

    def cases(self, tier):
        deep = tier == "thorough"
        for top in ((1, 1), (1, 2), (2, 2)) if deep else ((1, 1), (1, 2)):
            for rounds in range(1, 14):
                # histories: which round (from the end) is restored, how many rounds follow, fresh objects
                for back in range(0, rounds if deep else min(rounds, 3)):
                    for more in (1, 2, 11) if deep or rounds >= 9 else (1, 2):
                        yield {"top": list(top), "rounds": rounds, "back": back, "more": more}
            yield {"top": list(top), "rounds": 101, "back": 0, "more": 2}
            yield {"top": list(top), "rounds": 101, "back": 92, "more": 2}

    def run(self, case, rec):
        from pathlib import Path

        import mixtera.core.query.query_result as qm
        from mixtera.core.query.chunk_distributor import ChunkDistributor

        table, _, _ = build(self.w, LAYOUT, "single")
        mk = lambda: qm.QueryResult(self.w.cmdc, table, jobs.mixture({"kind": "arbitrary", "size": 2}))  # noqa: E731
        ref = [content(c) for c in mk()]
        groups, nodes = case["top"]
        root = env.fresh_dir("c06m")
        cdir = Path(root) / "c"
        cdir.mkdir()
        where = f"{case}: "
        ids, at = [], {}

        def rounds(d, n, taken, take):
            for r in range(n):
                if take and taken < len(ref) - 1 and groups == 1:
                    for node in range(nodes):
                        load(d.next_chunk_for(0, node, 0, False))
                    taken += 1
                before = len(ManualProcess.started)
                got = [d.checkpoint(g, x, [0], cdir, True) for g in range(groups) for x in range(nodes)]
                rec.step(len(got))
                if len(set(got)) != 1:
                    raise Wrong("id", f"round {len(ids) + 1}: the nodes got the ids {got}")
                if got[0] in ids:
                    raise Wrong("id", f"round {len(ids) + 1} got the id {got[0]}, which round {ids.index(got[0]) + 1} already has")
                if len(ManualProcess.started) != before + 1:
                    raise Wrong("started", f"round {len(ids) + 1} started {len(ManualProcess.started) - before} processes")
                if d.checkpoint_completed(got[0], True):
                    raise Wrong("completed", f"round {len(ids) + 1} ({got[0]}) is on disk before it was written")
                ManualProcess.started[-1].finish()
                if ManualProcess.started[-1].exitcode != 0:
                    raise Wrong("persist-failed", f"persisting round {len(ids) + 1} ({got[0]}) failed without any fault")
                if not d.checkpoint_completed(got[0], True):
                    raise Wrong("completed", f"round {len(ids) + 1} ({got[0]}) is not complete after it was written")
                ids.append(got[0])
                at[got[0]] = taken
                rec.state((str(case["top"]), len(ids), case["back"]))
            return taken

        def restored(i):
            d = ChunkDistributor.from_checkpoint(cdir, i, "job", None)
            rec.trace()
            if groups == 1:
                got = []
                for node in range(nodes):
                    try:
                        got.append(content(load(d.next_chunk_for(0, node, 0, False))))
                    except StopIteration:
                        got.append(None)
                # a chunk handed out but not confirmed is handed out again
                want = ref[at[i]] if at[i] < len(ref) else None
                again = ref[at[i] - 1] if at[i] else want
                if any(g not in (want, again) for g in got) or len({repr(g) for g in got}) != 1:
                    raise Wrong("restore", f"checkpoint {i} was taken after {at[i]} chunks, but restored it continues elsewhere")

        class Wrong(Exception):
            pass

        try:
            with jobs.inline_processes(ManualProcess):
                ManualProcess.started = []
                d = ChunkDistributor(groups, nodes, 1, mk(), "job")
                rounds(d, case["rounds"], 0, True)
                pick = ids[-1 - case["back"]]
                for i in {ids[0], ids[-1], pick}:
                    restored(i)
                d2 = ChunkDistributor.from_checkpoint(cdir, pick, "job", None)
                rounds(d2, case["more"], at[pick], False)
                restored(ids[-1])
                restored(pick)
            rec.outcome((str(case["top"]), len(ids)))
        except Wrong as e:
            rec.fail(e.args[0], where + e.args[1])
        except Exception as e:  # noqa: BLE001
            rec.fail("error", where + f"after {len(ids)} rounds: {type(e).__name__}: {e}")
        finally:
            ManualProcess.started = []
            env.rmtree(root)


HARNESSES = [Barrier(), Concurrent(), Many()]
