"""C05: restore resumes exactly where the workers reported to be."""
import itertools
import shutil

from c01 import build
from mc import env, jobs, world

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of request/feedback histories x reported positions x continuations on the real LocalStub and ChunkDistributor, comparing the restored run with the uninterrupted one"
RULE = ("a case = topology x mixture kind (arbitrary, static strict/best effort, inferring, schedule, dynamic, with updates placed anywhere) x cache situation (uncached, cached by this job, "
        "cached by another job with another mixture, cache entry replaced because the data changed before the checkpoint) x number of chunks each worker took x order x every reported position (all pairs for two workers) x one or two generations of restore; "
        "states = (case, position vectors), transitions = chunk requests, traces = restored runs compared sample by sample with the uninterrupted run")
ASSUMPTIONS = ["the persisting process runs to completion (crashes: C07)", "native chunk-index stand-in (checked by C27)",
               "if nodes of one group report different positions, the most advanced one counts (documented behaviour of the code)"]

K = {c: {"l": c.lower()} for c in "ABC"}
AB = {"kind": "static", "keys": [K["A"], K["B"]], "counts": [1, 1], "strict": True}
A2 = {"kind": "static", "keys": [K["A"]], "counts": [2], "strict": True}
B2 = {"kind": "static", "keys": [K["B"]], "counts": [2], "strict": True}
C2 = {"kind": "static", "keys": [K["C"]], "counts": [2], "strict": True}
ARB = {"kind": "arbitrary", "size": 2}

MIX = {
    "arbitrary": (ARB, ["AABAB", "BCA"]),
    "strict": (AB, ["AABB", "ABBB"]),
    "best-effort": (dict(AB, strict=False), ["AAAAB", "ABA"]),
    "inferring": ({"kind": "inferring", "size": 3, "strict": False}, ["AABAB", "BAACC"]),
    "schedule": ({"kind": "schedule", "size": 2, "entries": [[0, AB], [2, A2], [4, B2]]}, ["AABAAB", "BBBABA"]),
    "schedule-arb": ({"kind": "schedule", "size": 2, "entries": [[0, ARB], [2, AB], [4, ARB]]}, ["AABAAB", "BBBABA"]),
    "schedule-dry": ({"kind": "schedule", "size": 2, "entries": [[0, AB], [2, C2], [4, B2]]}, ["AABAAB", "BBBABA"]),
    "schedule-relaxed": ({"kind": "schedule", "size": 2, "entries": [[0, AB], [2, dict(AB, strict=False)], [4, AB]]}, ["AABBB", "BBAB"]),
    "dynamic": ({"kind": "dynamic", "size": 2, "initial": AB}, ["AABAAB", "BBBABA"]),
    "dynamic-inf": ({"kind": "dynamic", "size": 2, "initial": {"kind": "inferring", "size": 2}}, ["AABAAB", "BBBABA"]),
}
# what the query selects after the data has changed
REPLACED = ["CCAAA", "CAC"]
# the job that filled the cache used something else
OTHER = {"kind": "static", "keys": [K["C"], K["A"]], "counts": [1, 1], "strict": True}


def fb_events(name):
    if name.startswith("schedule"):
        return [["fb", 2, None], ["fb", 4, None]]
    if name.startswith("dynamic"):
        return [["fb", 2, [3.0, 0.0]], ["fb", 4, [0.0, 9.0]]]
    return []


class Run:
    """one job on one stub"""

    def __init__(self, w, st, job, top, server):
        self.w, self.st, self.job, self.top, self.server = w, st, job, top, server

    def start(self, table, mix):
        from mixtera.core.client.mixtera_client import QueryExecutionArgs

        q = jobs.TableQuery(self.w, self.job, table, "the query")
        assert self.st.execute_query(q, QueryExecutionArgs(mixture=jobs.mixture(mix), dp_groups=self.top[0], nodes_per_group=self.top[1], num_workers=self.top[2]))

    def dist(self):
        return self.st._get_query_chunk_distributor(self.job)

    def do(self, ev):
        """one event -> what is observed"""
        if ev[0] == "fb":
            f = jobs.feedback(ev[1], losses=ev[2], counts=[1] * len(ev[2]) if ev[2] else None, mixture_id=0)
            assert self.st.process_feedback(self.job, f)
            return None
        try:
            raw = self.dist().next_chunk_for(*ev[1], not self.server)
        except StopIteration:
            return "end"
        return jobs.describe(jobs.load(raw))


def histories(top, name, deep):
    """(history, counts) where all nodes of a group took the same number of chunks per worker"""
    dp, nodes, workers = top
    W = max(1, workers)
    gw = [(g, w) for g in range(dp) for w in range(W)]
    hi = 5 if len(gw) == 1 else (3 if deep else 2)
    hi = hi + (2 if deep and len(gw) == 1 else 0)
    fbs = fb_events(name)
    for counts in itertools.product(range(hi + 1), repeat=len(gw)):
        seq = []
        left = dict(zip(gw, counts))
        while any(left.values()):
            for k in gw:
                if left[k]:
                    left[k] -= 1
                    seq += [["req", [k[0], n, k[1]]] for n in range(nodes)]
        orders = [seq]
        if len(gw) > 1 and sum(counts) > 1:  # worker after worker, last first
            rev = []
            for k, c in reversed(list(zip(gw, counts))):
                rev += [["req", [k[0], n, k[1]]] for _ in range(c) for n in reversed(range(nodes))]
            orders.append(rev)
        for o in orders:
            if not fbs:
                yield o, dict(zip(gw, counts))
                continue
            # feedback at every position, in order
            for i in range(len(o) + 1):
                yield o[:i] + [fbs[0]] + o[i:], dict(zip(gw, counts))
                for j in range(i, len(o) + 1):
                    if deep or len(gw) == 1:
                        yield o[:i] + [fbs[0]] + o[i:j] + [fbs[1]] + o[j:], dict(zip(gw, counts))


class Restore:
    name = "restore"
    cpu_limit = 300
    wall_limit = 400

    def setup(self):
        self.w = world.world()

    def cases(self, tier):
        deep = tier == "thorough"
        for name in MIX:
            for top in ((1, 1, 0), (1, 1, 2), (1, 2, 1), (2, 1, 1), (1, 2, 2), (2, 2, 1)):
                if name.startswith(("schedule", "dynamic")) and top not in ((1, 1, 0), (1, 2, 1), (1, 1, 2)) and not deep:
                    continue
                hs = list(histories(top, name, deep))
                for cache in ("own", "other", "replaced", "off"):
                    if not deep and cache == "replaced" and name not in ("arbitrary", "strict", "inferring"):
                        continue
                    if not deep and cache != "off" and top not in ((1, 1, 0), (1, 1, 2)):
                        continue
                    if not deep and cache != "off" and top == (1, 1, 2) and fb_events(name):
                        continue
                    if not deep and cache == "other" and name in ("schedule-arb", "schedule-dry", "schedule-relaxed", "dynamic-inf"):
                        continue
                    step = 10
                    for i in range(0, len(hs), step):
                        yield {"mix": name, "top": list(top), "cache": cache, "hist": [i, i + step], "deep": deep}

    def run(self, case, rec):
        hs = list(histories(tuple(case["top"]), case["mix"], case["deep"]))[case["hist"][0]:case["hist"][1]]
        self.root = env.fresh_dir("c05")
        try:
            with jobs.inline_processes():
                for h, counts in hs:
                    if not self.one(case, h, counts, rec):
                        return
        finally:
            env.rmtree(self.root)

    def one(self, case, hist, counts, rec):
        mix, layout = MIX[case["mix"]]
        table, _, _ = build(self.w, layout, "single")
        top = case["top"]
        dp, nodes, W = top[0], top[1], max(1, top[2])
        server = top != [1, 1, 0]
        acts = [(g, n, w) for g in range(dp) for n in range(nodes) for w in range(W)]
        cont = [["req", list(a)] for _ in range(6) for a in acts]
        if fb_events(case["mix"]):
            cont = cont[:len(acts)] + [fb_events(case["mix"])[1]] + cont[len(acts):] + cont[:6 * len(acts)]
        where = f"mixture={case['mix']} layout={layout} groups x nodes x workers={top} cache={case['cache']} history={hist}: "
        d = env.fresh_dir("stub")
        st = jobs.stub(d)
        try:
            if case["cache"] == "off":
                st._query_cache.enabled = False
            if case["cache"] == "other":
                Run(self.w, st, "filler", [1, 1, 1], False).start(table, OTHER)
            # the uninterrupted run
            ref = Run(self.w, st, "ref", top, server)
            ref.start(table, mix)
            current = {}
            hout = []
            for ev in hist:
                o = ref.do(ev)
                hout.append(o)
                if ev[0] == "req" and o != "end":
                    current[tuple(ev[1])] = o
            # nodes of a group that saw the end at different times (the mixture changed in between) may not checkpoint
            taken = {}
            for ev, o in zip(hist, hout):
                if ev[0] == "req":
                    taken[tuple(ev[1])] = taken.get(tuple(ev[1]), 0) + (o != "end")
            if any(taken.get((g, n, w), 0) != taken.get((g, 0, w), 0) for g, n, w in acts):
                rec.count("nodes diverged, skipped")
                return True
            exp = [ref.do(e) for e in cont]
            lens = {}
            for g in range(dp):
                for w in range(W):
                    c = current.get((g, 0, w))
                    lens[(g, w)] = len(c["stream"]) if c else 0
            gws = [(g, w) for g in range(dp) for w in range(W)]
            if len(gws) <= 2:
                positions = list(itertools.product(*[range(lens[k] + 1) for k in gws]))
            else:
                positions = [tuple(min(p + i, lens[k]) for i, k in enumerate(gws)) for p in range(max(lens.values()) + 1)]
            for pi, pos in enumerate(positions):
                ok = self.resume(case, st, d, table, mix, hist, hout, current, exp, cont, dict(zip(gws, pos)), lens, server, where + f"reported={pos}: ", rec, pi, gen2=pi == len(positions) // 2)
                if not ok:
                    return False
            rec.outcome((case["mix"], tuple(top), str(hout)))
            return True
        finally:
            st._mdc._connection.close() if hasattr(st._mdc, "_connection") else None
            env.rmtree(d)

    def resume(self, case, st, d, table, mix, hist, hout, current, exp, cont, pos, lens, server, where, rec, pi, gen2):
        top = case["top"]
        dp, nodes, W = top[0], top[1], max(1, top[2])
        job = f"job{pi}"
        if case["cache"] == "replaced":
            st._mdc._db_incr_version()  # what is cached is from another time
        r = Run(self.w, st, job, top, server)
        r.start(table, mix)
        for ev, o in zip(hist, hout):
            got = r.do(ev)
            rec.step()
            if got != o:
                rec.fail("not-reproducible", where + f"a second run of the same job differs at {ev}: {got} instead of {o}")
                return False
        if case["cache"] == "replaced":  # the data changes, then another job executes the same query
            st._mdc._db_incr_version()
            Run(self.w, st, f"{job}-later", [1, 1, 1], False).start(build(self.w, REPLACED, "single")[0], OTHER)
        cid = self.checkpoint(r, pos, dp, nodes, W, server)
        # taking a checkpoint does not disturb the running job
        for ev, o in zip(cont[:2 * dp * nodes * W], exp):
            got = r.do(ev)
            if got != o:
                rec.fail("disturbed", where + f"after the checkpoint {ev} gives {got}, without checkpoint {o}")
                return False
        if not self.compare(st, d, job, cid, top, server, current, pos, cont, exp, where, rec):
            return False
        if gen2:  # checkpoint the restored run again, after it moved on a little
            r2 = Run(self.w, jobs.stub(d), job, top, server)
            r2.st.restore_checkpoint(job, cid)
            cur2 = {}
            self.again(r2, current, pos, {})
            moved = 0
            for ev, o in zip(cont, exp):
                if moved >= dp * nodes * W:
                    break
                got = r2.do(ev)
                moved += 1
                if ev[0] == "req" and o != "end":
                    cur2[tuple(ev[1])] = o
            cur = dict(current)
            cur.update(cur2)
            pos2 = {}
            for g in range(dp):
                for w in range(W):
                    c = cur.get((g, 0, w))
                    pos2[(g, w)] = (len(c["stream"]) + 1) // 2 if c else 0
                    if (g, 0, w) not in cur2 and c:
                        pos2[(g, w)] = max(pos2[(g, w)], pos[(g, w)])
            cid2 = self.checkpoint(r2, pos2, dp, nodes, W, server)
            if cid2 == cid:
                rec.fail("same-id", where + f"the second checkpoint got the id {cid2} of the first")
                return False
            if not self.compare(r2.st, d, job, cid2, top, server, cur, pos2, cont[moved:], exp[moved:], where + "[second generation] ", rec):
                return False
            # the first one is still usable
            if not self.compare(r2.st, d, job, cid, top, server, current, pos, cont, exp, where + "[first again] ", rec):
                return False
            r2.st._mdc._connection.close() if hasattr(r2.st._mdc, "_connection") else None
        shutil.rmtree(r.st.checkpoint_directory / job, ignore_errors=True)
        st._training_query_map.pop(job, None)
        rec.state((case["mix"], tuple(top), case["cache"], str(hist), str(pos)))
        return True

    def checkpoint(self, r, pos, dp, nodes, W, server):
        ids = []
        for g in range(dp):
            for n in range(nodes):
                ids.append(r.st.checkpoint(r.job, g, n, [pos[(g, w)] for w in range(W)], server))
        cid = ids[-1]
        assert r.st.checkpoint_completed(r.job, cid, True)
        return cid

    def again(self, r, current, pos, into):
        """every worker asks for its current chunk again"""
        out = []
        for a in sorted(current):
            got = r.do(["req", list(a)])
            into[a] = got
            out.append((a, got))
        return out

    def compare(self, st, d, job, cid, top, server, current, pos, cont, exp, where, rec):
        for fresh in (True, False):
            s2 = jobs.stub(d) if fresh else st
            r = Run(self.w, s2, job, top, server)
            try:
                s2.restore_checkpoint(job, cid)
                for a, got in self.again(r, current, pos, {}):
                    p = pos[(a[0], a[2])]
                    want = current[a]["stream"][p:]
                    if got == "end" or got["stream"] != want:
                        rec.fail("remainder", where + f"worker {a} resumes at {got if got == 'end' else got['stream']} instead of {want}")
                        return False
                    if got["mixture_id"] != current[a]["mixture_id"]:
                        rec.fail("mixture-id", where + f"worker {a}: mixture id {got['mixture_id']} instead of {current[a]['mixture_id']}")
                        return False
                for i, (ev, o) in enumerate(zip(cont, exp)):
                    got = r.do(ev)
                    rec.step()
                    if got != o:
                        what = "domain-ids" if got not in (None, "end") and o not in (None, "end") and got["domains"] == o["domains"] else "chunks"
                        rec.fail(what, where + f"after restore, request {i} ({ev}) gives {got}, the uninterrupted run gives {o}")
                        return False
                rec.trace()
            finally:
                if fresh and hasattr(s2._mdc, "_connection"):
                    s2._mdc._connection.close()
        return True


HARNESSES = [Restore()]
