"""C19: concurrent clients of one server do not interfere."""
import itertools
from pathlib import Path

import c18
from c09 import Conn
from c11 import control_locks
from mc import env, jobs, net, sched

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of the interleavings, up to a preemption bound, of real clients, the real server's event loop and its worker threads on an in-memory network under a controlled scheduler with virtual time; "
             "the answers and the final state are compared with all sequential orders of the same requests on a local stub")
RULE = ("a case = a prefix state, the operations of two or three clients (optionally one request delivered in two parts, cut at one field) and the bound; scheduling points are connections, request parts, iterations of the server's loop, "
        "job table accesses, and database calls of worker threads; every schedule's answers and final probes must equal those of one sequential order; no client waits for ever or runs into a time-out that no sequential order has; "
        "states = schedules x case, transitions = decisions, traces = executions compared")
ASSUMPTIONS = ["time-outs fire only when nothing can run (work takes no time)", "clients wait for the completion of an execution before they use it, as documented; a client that does not is answered when the job is there"]


class Table(dict):
    """the stub's job table: accesses are scheduling points"""

    def __contains__(self, k):
        sched._pt()
        return super().__contains__(k)

    def __getitem__(self, k):
        sched._pt()
        return super().__getitem__(k)

    def __setitem__(self, k, v):
        sched._pt()
        super().__setitem__(k, v)


class Client(c18.Site):
    def __init__(self, root, stub, clock):
        self.root, self.st, self.cl, self.net, self.remote = root, stub, stub, clock, True
        self.chk, self.poll = {}, True


class Clock:
    def sleep(self, t):
        import time

        time.sleep(t)


# name -> (prefix, clients, database calls are points, probes)
DATA = ["p:P:P", "r:1:D1:P"]
JOB = DATA + ["q:j::arb:2:1", "s:j:0:0", "s:j:1:0"]
PRB = ["l", "q:probe::arb", "S:probe:0"]
SCEN = {
    "ready": (DATA, [["q:j::arb"], ["w:j", "s:j"]], True, ["s:j"] + PRB),
    "ready3": (DATA, [["q:j::arb"], ["w:j", "s:j"], ["w:j", "f:j:1:0:n"]], False, ["s:j"]),
    "fails": (DATA, [["q:j:raw:arb"], ["w:j"], ["q:k::arb", "s:k"]], True, ["s:k"] + PRB),
    "again": (DATA, [["q:j:raw:arb", "q:j::arb", "s:j"], ["q:k::arb"]], False, ["s:j", "s:k"]),
    "same": (DATA, [["q:j::arb", "s:j"], ["q:j::arb"]], True, ["s:j"] + PRB),
    "same3": (DATA, [["q:j::arb"], ["q:j:a:arb"], ["w:j"]], False, ["s:j"]),
    "two": (DATA, [["q:j:a:arb", "s:j"], ["q:k:a:arb", "s:k"]], True, ["s:j", "s:k"]),
    "early": (DATA, [["q:j::arb"], ["s:j"], ["l", "e:D1"]], False, ["s:j"]),
    "unknown": (DATA, [["s:nope"], ["l"], ["m:nope"]], False, PRB),
    "reg": (DATA[:1], [["r:1:D1:P", "e:D1"], ["r:2:D2:P", "e:D2"], ["l"]], False, PRB),
    "regsame": (DATA[:1], [["r:1:D1:P"], ["r:1:D1:P"]], True, PRB),
    "regfail": (DATA[:1], [["r:bad:D1:P"], ["r:1:D2:P", "l"]], True, PRB),
    "regq": (DATA, [["r:2:D2:P"], ["q:j::arb", "s:j"]], True, ["s:j"] + PRB),
    "rem": (DATA, [["d:D1"], ["r:2:D2:P", "l"]], True, PRB),
    "rem2": (DATA, [["d:D1"], ["d:D1"], ["e:D1"]], False, PRB),
    "parsers": ([], [["p:P:P", "r:1:D1:P"], ["p:P:Q"]], False, ["l", "e:D1"]),
    "chunks": (JOB, [["s:j:0:0"], ["s:j:1:0"]], False, ["s:j:0:0", "s:j:1:0"]),
    "chunks2": (DATA + ["q:j::arb:2:2"], [["s:j:0:0"], ["s:j:0:1"], ["s:j:1:0"]], False, ["s:j:0:0", "s:j:0:1", "s:j:1:0", "s:j:1:1"]),
    "barrier": (JOB, [["c:j:0:0", "C:j:1:chkpnt_1"], ["c:j:0:1", "C:j:1:chkpnt_1"]], False, ["R:j:chkpnt_1", "s:j:0:0", "s:j:1:0"]),
    "chkfb": (DATA + ["q:j::dyn", "s:j"], [["c:j:1"], ["f:j:1:0:l"]], False, ["s:j"]),
    "feedback": (DATA + ["r:2:D2:P", "q:j::dyn", "s:j"], [["f:j:1:0:l"], ["f:j:2:0:z"], ["s:j"]], False, ["s:j", "s:j"]),
    "restore": (DATA + ["q:j::dyn", "s:j", "c:j:1", "s:j"], [["R:j:chkpnt_1", "s:j"], ["q:k::arb", "s:k"]], True, ["s:j", "s:k"]),
    "restore2": (DATA + ["q:j::dyn", "s:j", "c:j:1", "s:j"], [["R:j:chkpnt_1"], ["R:j:chkpnt_1"]], False, ["s:j"]),
    "restoreq": (DATA + ["q:j::dyn", "s:j", "c:j:1", "s:j"], [["R:j:chkpnt_1", "s:j"], ["q:j::arb"]], False, []),
}
SPLITS = ["chunks", "barrier", "feedback", "same3", "regsame"]


class Interleavings:
    name = "interleavings"
    cpu_limit = 800
    wall_limit = 850

    def cases(self, tier):
        for name, (pre, clients, db, _) in SCEN.items():
            for perm in itertools.permutations(range(len(clients))):
                if tier == "quick" and list(perm) != sorted(perm):
                    continue
                yield {"scen": name, "perm": list(perm), "bound": 1 if tier == "quick" else 2, "split": None}
        for name in SPLITS:
            for who in range(len(SCEN[name][1])):
                for at in range(1, 8):
                    yield {"scen": name, "perm": list(range(len(SCEN[name][1]))), "bound": 1 if tier == "thorough" else 0, "split": [who, at]}

    def reference(self, case, rec):
        """answers and probes of every sequential order"""
        pre, clients, _, probes = SCEN[case["scen"]]
        slots = [i for i, ops in enumerate(clients) for _ in ops]
        out = []
        for order in sorted(set(itertools.permutations(slots))):
            pos = [0] * len(clients)
            ops = []
            for i in order:
                ops.append((i, clients[i][pos[i]]))
                pos[i] += 1
            flat = [o for _, o in ops]
            if any(o[:2] in ("w:", "s:", "S:") and any(q.split(":")[:2] == ["q", o.split(":")[1]] for q in flat[n:]) and not any(q.split(":")[:2] == ["q", o.split(":")[1]] for q in pre + flat[:n]) for n, o in enumerate(flat)):
                continue  # would wait for an execution that comes later
            with net.Net() as n, jobs.inline_processes():
                s = c18.Site(False, n)
                for o in pre:
                    if s.do(o) == "fail":
                        raise RuntimeError(f"prefix {o}: {s.why}")
                res = [[] for _ in clients]
                for i, o in ops:
                    res[i].append(s.do(o))
                end = [s.do(o) for o in probes]
                s.close()
            out.append((res, end, flat))
        return out

    def run(self, case, rec):
        from mixtera.network.server import MixteraServer

        pre, clients, db, probes = SCEN[case["scen"]]
        want = self.reference(case, rec)

        def one(chooser):
            import multiprocessing as mp

            sn = net.SNet(chooser)
            if case["split"]:
                sn.splits[(f"client{case['split'][0]}", 0)] = case["split"][1]
            root = Path(env.fresh_dir("c19"))
            c18.dump(root)
            (root / "dir").mkdir()
            out = {"res": [[] for _ in clients], "end": [], "why": []}

            def make():
                mp.Process = jobs.InlineProcess
                srv = MixteraServer(root / "dir", "server", 1)
                st = out["st"] = srv._local_stub
                for o in (st, st._mdc, getattr(st, "_query_cache", None)):
                    if o is not None:
                        control_locks(o)
                if isinstance(getattr(st, "_training_query_map", None), dict):
                    st._training_query_map = Table(st._training_query_map)
                return srv

            def client():
                from mixtera.core.client.server.server_stub import ServerStub

                return Client(root, ServerStub("server", 1), Clock())

            def before():
                c = client()
                for o in pre:
                    if c.do(o) == "fail":
                        raise RuntimeError(f"prefix {o}: {c.why}")
                if db:
                    out["st"]._mdc._connection = Conn(out["st"]._mdc._connection)

            def actor(i):
                def f():
                    c = client()
                    for o in clients[i]:
                        out["res"][i].append(c.do(o))
                        out["why"].append((i, o, c.why))
                return f

            def after():
                if db:
                    out["st"]._mdc._connection = out["st"]._mdc._connection._real
                c = client()
                Clock().sleep(3)
                for o in probes:
                    out["end"].append(c.do(o))
                    out["why"].append(("probe", o, c.why))

            try:
                sn.go(make, before, [(f"client{i}", actor(i)) for i in case["perm"]], after)
            except (sched.Deadlock, sched.Livelock) as e:
                out["stuck"] = f"{type(e).__name__}: {e}"
            finally:
                if "st" in out:
                    k = out["st"]._mdc._connection
                    getattr(k, "_real", k).close()
                env.rmtree(str(root))
            return out

        def on(out, choices):
            rec.trace()
            rec.step(len(choices))
            rec.state((str(case), tuple(choices)))
            rec.outcome((case["scen"], str(out["res"])))
            where = f"{case} clients={clients} schedule={choices}: "
            if "stuck" in out:
                rec.fail("stuck", where + f"{out['stuck']}; answers so far {str(out['why'])[:1500]}")
                return False
            if not any(out["res"] == r and out["end"] == e for r, e, _ in want):
                near = [e for r, e, _ in want if r == out["res"]]
                rec.fail("final-state" if near else "answers", where + f"no sequential order gives {str(out['why'])[:1500]}; " + (f"the later requests would give {str(near[0])[:600]}" if near else f"sequential orders give {str([r for r, _, _ in want])[:1500]}"))
                return False
            return True

        n, done = sched.explore(one, case["bound"], limit=1500 if case["bound"] < 2 else 6000, on_run=on)
        rec.count("schedules", n)
        if not done and not rec.fails:
            rec.cap(f"{case}: schedule limit")


def prepare(tier):
    env.boot()


HARNESSES = [Interleavings()]
