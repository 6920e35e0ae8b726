"""C18: the remote client behaves exactly like the local one."""
import itertools
import json
from pathlib import Path

from mc import env, jobs, net

LEVEL = "model_checking"
TECHNIQUE = ("exhaustive enumeration of operation histories executed on the real local stub and, through the real client, protocol and server code on an in-memory network under virtual time, on the real server; "
             "exhaustive enumeration of connection faults (refused, request or response cut after every write and inside every field, error in every server operation)")
RULE = ("a case = a prefix state and the operations tried from it, every outcome (result, failure, chunks, samples) compared between local and remote; or one operation and a class of faults: with the request cut the server must be unchanged, "
        "with the response cut or the server failing the client must report an error or a failure result; afterwards a probe sequence is compared with an undisturbed local stub; "
        "states = (state, operation, fault), transitions = operations, traces = outcomes compared")
ASSUMPTIONS = ["execution and restoration are asynchronous at the server: the remote operation includes the documented wait for its completion", "exceptions, False and missing results are all failures; which one is not compared",
               "metadata parsers are self-contained classes, as documented for remote use"]

SRC = {"1": [[("a", "t"), ("b", "ü€"), ("a", "")], [("b", "x" * 40)]], "2": [[("a", "2"), ("c", " s ")]], "0": [[]], "bad": [[("a", "1"), ("!", "2")]]}
MIX = {
    "st": {"kind": "static", "keys": [{"l": "a"}, {"l": "b"}], "counts": [1, 1], "strict": False},
    "arb": {"kind": "arbitrary", "size": 2},
    "inf": {"kind": "inferring", "size": 2, "strict": False},
    "dyn": {"kind": "dynamic", "size": 2, "strict": False, "initial": {"kind": "static", "keys": [{"l": "a"}, {"l": "b"}], "counts": [1, 1], "strict": False}},
    "dyn2": {"kind": "dynamic", "size": 2, "strict": False, "initial": {"kind": "inferring", "size": 2, "strict": False}},
}


def text(line):
    import json as j

    return j.loads(line)["t"]


def dump(root):
    for k, files in SRC.items():
        d = root / ("src-" + k)
        d.mkdir(parents=True)
        for i, s in enumerate(files):
            with open(d / f"{i}.jsonl", "w", encoding="utf-8") as f:
                for l, t in s:
                    f.write(json.dumps({"l": l, "t": t}, ensure_ascii=False) + "\n")
    (root / "src-nofiles").mkdir()


def parsers():
    import remote_parsers

    return remote_parsers


def setup_func(executor):
    executor.k = 1


def calc_func(executor, batch):
    return [1 for _ in batch]


class Site:
    """a client, local or remote, on its own directory"""

    def __init__(self, remote, netw):
        self.root = Path(env.fresh_dir("c18"))
        self.remote = remote
        self.net = netw
        dump(self.root)
        (self.root / "dir").mkdir()
        if remote:
            from mixtera.core.client.server.server_stub import ServerStub
            from mixtera.network.server import MixteraServer

            self.server = MixteraServer(self.root / "dir", "server", 1)
            netw.serve(self.server)
            self.st = self.server._local_stub
            self.cl = ServerStub("server", 1)
        else:
            self.st = self.cl = jobs.stub(self.root / "dir")
        self.chk = {}
        self.poll = True

    def close(self):
        self.st._mdc._connection.close()
        env.rmtree(str(self.root))

    def do(self, op):
        """normalised outcome"""
        try:
            r = self._do(op)
        except Exception as e:  # noqa: BLE001
            self.why = f"{type(e).__name__}: {e}"
            return "fail"
        self.why = repr(r)[:300]
        return "fail" if r is False or r is None else r

    def _do(self, op):
        from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs
        from mixtera.core.datacollection.datasets import JSONLDataset
        from mixtera.core.datacollection.property_type import PropertyType
        from mixtera.core.processing import ExecutionMode
        from mixtera.core.query import Query

        k, *a = op.split(":")
        cl = self.cl
        if k == "p":
            name, cls = a
            return cl.register_metadata_parser(name, getattr(parsers(), cls))
        if k == "r":
            src, name, parser = a
            return cl.register_dataset(name, str(self.root / ("src-" + src)) if src != "2" else self.root / "src-2", JSONLDataset, text, parser)
        if k == "d":
            return cl.remove_dataset(a[0])
        if k == "e":
            return cl.check_dataset_exists(a[0])
        if k == "l":
            return ("list", tuple(sorted(cl.list_datasets())))
        if k == "q":
            job, sel, mix = a[:3]
            q = Query.for_job(job)
            if sel != "raw":
                q = q.select(("l", "==", sel) if sel else None)
            ok = cl.execute_query(q, QueryExecutionArgs(mixture=jobs.mixture(MIX[mix]), dp_groups=1, nodes_per_group=int(a[3]) if len(a) > 3 else 1, num_workers=int(a[4]) if len(a) > 4 else 1))
            return bool(ok) and cl.wait_for_execution(job)
        if k == "w":
            return bool(cl.wait_for_execution(a[0]))
        if k == "s":
            job, node, worker = a[0], int(a[1]) if len(a) > 1 else 0, int(a[2]) if len(a) > 2 else 0
            g = cl._stream_result_chunks(job, 0, node, worker)
            try:
                c = next(g, None)
            finally:
                g.close()
            if c is None:
                return ("end",)
            return ("chunk", self.norm(jobs.describe(c)))
        if k == "S":
            job, tunnel = a
            return ("samples", tuple(itertools.islice(cl.stream_results(ResultStreamingArgs(
                job_id=job, tunnel_via_server=tunnel == "1" and self.remote, chunk_reading_prefetch_first_sample=False)), 60)), cl.current_mixture_id)
        if k == "m":
            t, f, p = cl._get_result_metadata(a[0])
            return ("meta", tuple(sorted((i, c.__name__) for i, c in t.items())), tuple(sorted((i, fn('{"t": "z"}')) for i, fn in f.items())),
                    tuple(sorted((i, str(Path(x).relative_to(self.root))) for i, x in p.items())))
        if k == "c":
            job, pos = a[:2]
            node = int(a[2]) if len(a) > 2 else 0
            # (local clients support fewer configurations than servers, which is not compared)
            i = cl.checkpoint(job, 0, node, [int(x) for x in pos.split(",")] if pos else [], server=True)
            if i is None:
                return None
            self.chk[job] = i
            return ("chk", i)
        if k == "C":
            job, disk = a[:2]
            i = a[2] if len(a) > 2 else self.chk.get(job, "chkpnt_1")
            r = cl.checkpoint_completed(job, i, disk == "1")
            if r is False and disk == "1" and self.poll:  # the copy of a checkpoint is written by another process
                self.net.sleep(1)
                r = cl.checkpoint_completed(job, i, True)
            return r
        if k == "R":
            job = a[0]
            cl.restore_checkpoint(job, a[1] if len(a) > 1 else self.chk.get(job, "chkpnt_1"))
            return bool(cl.wait_for_execution(job))
        if k == "f":
            job, step, mid, kind = a
            fb = {"n": jobs.feedback(int(step), None, None, int(mid)), "l": jobs.feedback(int(step), [3, 1], [2, 2], int(mid)), "e": jobs.feedback(int(step), [], [], int(mid)),
                  "z": jobs.feedback(int(step), [0, 1], [0, 5], int(mid))}[kind]
            return cl.process_feedback(job, fb)
        if k == "a":
            return cl.add_property(a[0], setup_func, calc_func, ExecutionMode.LOCAL, PropertyType.CATEGORICAL, min_val=-1.5, max_val=2.0, num_buckets=3, batch_size=2, degree_of_parallelism=1, data_only_on_primary=False)
        raise ValueError(op)

    def norm(self, x):
        return x


PRE = {
    "empty": [],
    "data": ["p:P:P", "r:1:D1:P"],
    "job": ["p:P:P", "r:1:D1:P", "q:j::dyn", "s:j"],
    "chk": ["p:P:P", "r:1:D1:P", "q:j::dyn", "s:j", "c:j:1", "C:j:1", "s:j"],
    "done": ["p:P:P", "r:1:D1:P", "r:2:D2:P", "q:j::st", "s:j", "s:j", "s:j", "s:j"],
    "nodes": ["p:P:P", "r:1:D1:P", "q:j::arb:2:0", "s:j:0:0"],
}
COMMON = ["l", "e:D1", "e:", "d:D1", "d:nope", "r:1:D1:P", "r:2:D2:P", "p:P:P", "p:Z:Q", "a:prop"]
MORE = {
    "empty": ["p:N:N", "p::P", "p:W:none", "r:1:D1:nope", "r:0:D0:P", "r:nofiles:D:P", "r:missing:D:P", "r:bad:D1:P", "r:2::P", "q:j::arb", "q:j:zzz:st", "q:j:raw:arb", "R:j"],
    "data": ["r:0:D0:P", "r:1:Dü/ x:P", "r:1:D3:Q", "p:N:N", "r:1:D4:N", "r:bad:D2:P", "q:j::arb", "q:j:a:inf", "q:j:zzz:arb", "q:j:zzz:inf", "q:j:zzz:st", "q:j:zzz:dyn", "q:j:raw:arb", "q:k::dyn2", "s:j", "S:j:0", "s:k"],
    "job": ["q:j::arb", "q:k:b:st", "s:j", "s:k", "s:nope", "s:j:1", "s:j:0:1", "s:j:-1", "S:j:0", "S:j:1", "m:j", "m:nope", "c:j:0", "c:j:1", "c:j:9", "c:j:", "c:j:1,1", "c:nope:0", "c:j:0:1", "C:j:1", "C:j:0:nope", "C:nope:1", "R:j", "R:j:nope", "R:nope",
            "f:j:1:0:l", "f:j:2:0:n", "f:j:1:-1:z", "f:j:0:7:l", "f:j:1:0:e", "f:nope:1:0:l"],
    "chk": ["R:j", "R:j:nope", "R:j:", "q:j::st", "s:j", "S:j:1", "c:j:0", "c:j:1", "C:j:1", "C:j:0", "f:j:1:0:l", "m:j"],
    "done": ["s:j", "S:j:0", "S:j:1", "c:j:0", "C:j:1", "R:j", "m:j", "q:j::st", "q:k::arb", "S:k:1", "f:j:5:0:l", "d:D2"],
    "nodes": ["s:j:1:0", "s:j:0:0", "s:j:2:0", "s:j:0:1", "c:j:0", "c:j:1", "c:j:0:1", "c:j:0,0", "C:j:1", "C:j:0", "R:j"],
}


class Histories:
    name = "histories"
    cpu_limit = 300
    wall_limit = 500

    def cases(self, tier):
        for pre in PRE:
            ops = [o for o in MORE[pre]] + [o for o in COMMON if o not in MORE[pre]]
            first = ops if tier == "thorough" else MORE[pre]
            second = ops if tier == "thorough" else [o for o in MORE[pre] if o[0] != "m"]
            if tier == "quick":
                for a in ops:
                    yield {"pre": pre, "ops": [a, "l"]}
            for a, b in itertools.product(first, second):
                yield {"pre": pre, "ops": [a, b]}
            if tier == "thorough" and pre in ("job", "chk", "nodes"):
                red = [o for o in MORE[pre] if o[0] in "sqcRCf"]
                for abc in itertools.product(red, repeat=3):
                    yield {"pre": pre, "ops": list(abc)}

    def run(self, case, rec):
        ops = PRE[case["pre"]] + case["ops"]
        res = {}
        for remote in (False, True):
            with net.Net() as n, jobs.inline_processes():
                s = Site(remote, n)
                out = []
                for o in ops:
                    t0 = n.now()
                    r = s.do(o)
                    out.append((o, r, s.why, n.now() - t0))
                res[remote] = out
                s.close()
        self.compare(case, rec, ops, res)

    def compare(self, case, rec, ops, res):
        for i, o in enumerate(ops):
            rec.step()
            rec.trace()
            a, b = res[False][i], res[True][i]
            rec.outcome((o, str(a[1])[:200]))
            if a[1] != b[1]:
                rec.fail(f"differs:{o[0]}", f"{ops[:i + 1]}: locally {str(a[1])[:700]} ({a[2]}), through the server {str(b[1])[:700]} ({b[2]})")
                return
            if i < len(PRE[case["pre"]]) and a[1] == "fail":
                raise RuntimeError(f"prefix step {o} failed: {a[2]}")
        rec.state((case["pre"], tuple(ops)))
        rec.sample({"ops": ops, "outcomes": [str(x[1])[:80] for x in res[True]]})


PROBE = ["l", "e:D1", "s:j", "q:probe::arb", "S:probe:0", "C:j:1:chkpnt_1"]
FAULTY = {
    "empty": ["p:P:P", "p:Z:Q", "l", "e:D1"],
    "data": ["r:2:D2:P", "d:D1", "e:D1", "l", "p:Z:Q", "q:j::dyn", "q:j:b:st", "a:prop"],
    "job": ["s:j", "S:j:0", "S:j:1", "m:j", "c:j:1", "f:j:1:0:l", "f:j:1:0:n", "q:j::arb", "q:k::inf", "d:D1"],
    "chk": ["R:j", "C:j:1", "c:j:0", "s:j"],
    "nodes": ["c:j:", "s:j:1:0"],
    "nodes2": ["c:j:0,0:1"],
}
PRE["nodes2"] = ["p:P:P", "r:1:D1:P", "q:j::arb:2:2", "s:j:0:0", "s:j:1:0", "c:j:0,0:0"]
MORE["nodes2"] = ["c:j:0,0:1", "c:j:0,0:0", "c:j:0:1", "C:j:1:chkpnt_1", "s:j:1:1", "s:j:0:1", "R:j"]
METHODS = ["register_dataset", "register_metadata_parser", "check_dataset_exists", "list_datasets", "remove_dataset", "execute_query", "add_property", "checkpoint", "checkpoint_completed", "restore_checkpoint", "process_feedback",
           "_get_query_chunk_distributor", "_get_result_metadata"]


def points(writes):
    """every boundary between two writes, and one point inside every field"""
    out, n = {0}, 0
    for w in writes:
        if len(w) > 1:
            out.add(n + 1)
            out.add(n + len(w) // 2)
            out.add(n + len(w) - 1)
        n += len(w)
        out.add(n)
    return sorted(out), n


class Faults:
    name = "faults"
    cpu_limit = 400
    wall_limit = 600

    def cases(self, tier):
        for pre, ops in FAULTY.items():
            if tier == "thorough":
                ops = ops + [o for o in MORE[pre] if o not in ops]
            for op in ops:
                for kind in ("request", "response", "error", "refuse"):
                    yield {"pre": pre, "op": op, "kind": kind}

    def local(self, n, ops):
        s = Site(False, n)
        out = [s.do(o) for o in ops]
        s.close()
        return out

    def start(self, n, pre):
        s = Site(True, n)
        for o in pre:
            s.do(o)
        s.poll = False
        return s

    def check_probe(self, case, rec, n, s, ops, want, what):
        n.sleep(3)
        for o, w in zip(ops, want):
            t0 = n.now()
            r = s.do(o)
            rec.step()
            rec.trace()
            if case["op"][0] == o[0] == "S" and w != "fail" and r != "fail":
                # whether the client knows a mixture depends on whether it received a chunk before the fault
                r, w = r[:2], w[:2]
            if r != w:
                rec.fail(f"later-request:{case['op'][0]}", f"{case}: {what}; then {o} gives {str(r)[:500]} ({s.why}), locally {str(w)[:500]} (operations {ops})")
                return False
            if w != "fail" and n.now() - t0 > 8:
                rec.fail("slow", f"{case}: {what}; then {o} takes {n.now() - t0} s")
                return False
        return True

    def run(self, case, rec):
        pre, op, kind = PRE[case["pre"]], case["op"], case["kind"]
        probe = [op] + PROBE
        with net.Net() as n, jobs.inline_processes():
            # what the operation does on the wire when nothing goes wrong
            s = self.start(n, pre)
            del n.conns[:]
            clean = s.do(op)
            wire = [(list(a), list(b)) for a, b in n.conns]
            s.close()
            without = self.local(n, pre + probe)[len(pre):]
            after = self.local(n, pre + [op] + probe)[len(pre) + 1:]
        if kind == "request":
            self.requests(case, rec, pre, op, wire, probe, without)
            return
        todo = []
        if kind == "response":
            for c, (_, resp) in enumerate(wire):
                if c > 2:
                    break  # repeated polls
                ks, total = points(resp)
                todo += [(c, k) for k in ks if k < total]
        elif kind == "refuse":
            todo = [(c, None) for c in range(min(len(wire), 3))]
        else:
            todo = [(m, None) for m in METHODS + ["next_chunk_for"]]
        for c, k in todo:
            with net.Net() as n, jobs.inline_processes():
                s = self.start(n, pre)
                called = [0]
                what = f"{kind} {c} {k if k is not None else ''}"
                if kind == "response":
                    n.plan = [None] * c + [net.Fault(cut_response=k)]
                elif kind == "refuse":
                    n.plan = [None] * c
                    n.default = net.Fault(refuse=True)
                else:
                    self.inject(s, c, called)
                r = s.do(op)
                n.plan, n.default = [], None
                if kind == "error":
                    n.sleep(3)
                    self.restore()
                    if not called[0]:
                        s.close()
                        continue
                rec.state((str(case), c, k))
                rec.outcome((op, kind, r == "fail"))
                if r != "fail":
                    rec.fail(f"silent:{kind}:{op[0]}", f"{case}: {what}: the client reports {str(r)[:500]} instead of an error (undisturbed: {str(clean)[:200]})")
                    s.close()
                    return
                applied = kind == "response" or (kind == "refuse" and c > 0)
                ok = self.check_probe(case, rec, n, s, probe, after if applied else without, what) if not (kind == "error" and op[0] in "Ssm") or c == "next_chunk_for" else True
                s.close()
                if not ok:
                    return

    def requests(self, case, rec, pre, op, wire, probe, without):
        ks, total = points(wire[0][0])
        with net.Net() as n, jobs.inline_processes():
            s = self.start(n, pre)
            for k in ks:
                if k >= total:
                    continue
                n.plan = [net.Fault(cut_request=k)]
                r = s.do(op)
                rec.state((str(case), k))
                rec.step()
                rec.outcome((op, "request", r == "fail"))
                if r != "fail":
                    rec.fail(f"silent:request:{op[0]}", f"{case}: request cut after {k} of {total} bytes: the client reports {str(r)[:500]}")
                    return
                n.plan = []
            self.check_probe(case, rec, n, s, probe, without, f"requests cut after {ks} bytes")
            s.close()

    # -- errors in the server's operations
    def inject(self, s, m, called):
        from mixtera.core.query.chunk_distributor import ChunkDistributor

        def boom(*a, **k):
            called[0] += 1
            raise RuntimeError("injected")

        self.undo = []
        if m == "next_chunk_for":
            real = ChunkDistributor.next_chunk_for
            ChunkDistributor.next_chunk_for = boom
            self.undo.append(lambda: setattr(ChunkDistributor, "next_chunk_for", real))
        elif hasattr(s.st, m):
            setattr(s.st, m, boom)
            self.undo.append(lambda: delattr(s.st, m))

    def restore(self):
        for u in self.undo:
            u()
        self.undo = []


def prepare(tier):
    env.boot()


HARNESSES = [Histories(), Faults()]
