"""C01: every selected sample at most once, none lost."""
import copy
import itertools
import os
import pickle

from mc import sched, shim, space, world
from mc.world import flatc

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive exploration of the real chunk generator + preemption-bounded schedule enumeration of concurrent pullers"
RULE = ("a case = layout of samples over files/domains x mixture (kind, chunk size, weights, strict/best effort); every chunk "
        "sequence is drained on the real QueryResult; states = distinct (samples handed out so far) sets, transitions = chunks pulled; "
        "schedules of 2-3 pullers sharing one result are enumerated up to a preemption bound, plus real forked pullers in every request order")
ASSUMPTIONS = ["the native chunk-index module is replaced by a stand-in checked against the real C++ by C27",
               "pullers share only the OS-level lock and counter, as after fork()"]


def drain(qr, rec, limit=200):
    out = []
    for _ in range(limit):
        try:
            c = next(qr)
        except StopIteration:
            return out, True
        rec.step()
        out.append(c)
    return out, False


def check_chunks(rec, chunks, selected, size, complete=None, where=""):
    """selected: set of (ds, file, sample).  complete: None, 'all' or 'lt-chunk'"""
    seen = set()
    for i, c in enumerate(chunks):
        idx = flatc(c._result_index)
        total = 0
        for key, samples in idx.items():
            for s in samples:
                total += 1
                if s not in selected:
                    rec.fail("not-selected", f"{where}chunk {i} contains {s}, which was not selected; chunk={idx}")
                    return
                if s in seen:
                    rec.fail("duplicate", f"{where}sample {s} is handed out twice (second time in chunk {i}: {idx})")
                    return
                seen.add(s)
        if total == 0:
            rec.fail("empty-chunk", f"{where}chunk {i} is empty")
            return
        if total > size:
            rec.fail("oversized", f"{where}chunk {i} has {total} samples, chunk size {size}")
            return
        rec.state((where, tuple(sorted(selected)), tuple(sorted(seen))))
    missing = selected - seen
    if complete == "all" and missing:
        rec.fail("lost", f"{where}{len(missing)} selected samples are never handed out: {sorted(missing)[:10]}; chunks="
                 + str([flatc(c._result_index) for c in chunks]))
    if complete == "lt-chunk" and len(missing) >= size:
        rec.fail("lost", f"{where}{len(missing)} selected samples left out although a whole chunk of {size} could be built: {sorted(missing)[:10]}")
    rec.outcome(tuple(tuple(sorted((k, tuple(v)) for k, v in flatc(c._result_index).items())) for c in chunks))


def build(w, layout, alpha):
    rows, members = world.rows_from_strings(w, layout, space.ALPHABETS[alpha])
    props = sorted({p for x in space.ALPHABETS[alpha].values() for p in x})
    fid2d = {f: d for d, f, _ in w.files}
    selected = {(fid2d[f], f, s) for m in members.values() for f, s in m}
    return world.table(rows, props), selected, members


def mixtures(alpha, letters, tier):
    """(json description) of mixtures"""
    for size in (1, 2, 3, 4, 7):
        yield {"kind": "arbitrary", "size": size}
    for size in (2, 3, 5):
        for strict in (True, False):
            yield {"kind": "inferring", "size": size, "strict": strict}
    for strict in (True, False):
        for k in range(1, len(letters) + 1):
            for keys in itertools.combinations(letters, k):
                for size in range(k, 6 if tier == "thorough" else 5):
                    for w in space.compositions(size, k):
                        yield {"kind": "static", "keys": [space_key(alpha, c) for c in keys], "counts": list(w), "strict": strict}
    if alpha != "single":  # coarser keys that match several domains
        for strict in (True, False):
            for size in (1, 2, 3):
                yield {"kind": "static", "keys": [{"l": "a"}], "counts": [size], "strict": strict}
            yield {"kind": "static", "keys": [{"l": "a"}, {"l": "b"}], "counts": [1, 1], "strict": strict}
            yield {"kind": "static", "keys": [{"l": "a"}, {"l": "b"}], "counts": [2, 1], "strict": strict}
            yield {"kind": "static", "keys": [{"l": "b"}, {"l": "a"}], "counts": [1, 2], "strict": strict}


def space_key(alpha, c):
    return space.ALPHABETS[alpha][c]


def make_mixture(m):
    from mixtera.core.query.mixture import ArbitraryMixture, InferringMixture

    if m["kind"] == "arbitrary":
        return ArbitraryMixture(m["size"])
    if m["kind"] == "inferring":
        return InferringMixture(m["size"], strict=m["strict"])
    return space.static([(space.as_key(k), c) for k, c in zip(m["keys"], m["counts"])], m["strict"])


def covers(m, alpha, layout):
    """does the mixture cover every domain present (each domain matched by exactly its own key)"""
    if m["kind"] == "inferring":
        return True
    present = {c for s in layout for c in s if c != "."}
    keys = m["keys"]
    return all(any(matches(k, space.ALPHABETS[alpha][c]) for k in keys) for c in present)


def matches(mk, comp):
    for p, v in mk.items():
        if v is None:
            continue
        cv = comp.get(p)
        if cv is None:
            return False
        a = set(v if isinstance(v, list) else [v])
        b = set(cv if isinstance(cv, list) else [cv])
        if not a & b:
            return False
    return True


class Single:
    name = "single-puller"

    def setup(self):
        self.w = world.world()

    def cases(self, tier):
        for alpha, letters, ns in (
            ("single", "AB", range(1, 8 if tier == "thorough" else 6)),
            ("single", "ABC", range(3, 7 if tier == "thorough" else 5)),
            ("single", "A.", range(2, 6)),
            ("multi", "ABC", range(2, 6 if tier == "thorough" else 4)),
            ("two", "ABC", range(2, 6 if tier == "thorough" else 4)),
        ):
            ms = list(mixtures(alpha, [c for c in letters if c != "."], tier))
            for n in ns:
                for lay in space.layouts(n, letters, 2, canonical=(alpha == "single")):
                    yield {"alpha": alpha, "layout": lay, "mixtures": ms if n <= 3 else None, "n": n, "letters": letters}
        # several files and data sets, longer
        for lay in (["AAB", "BBA", "CCA", "ABC"], ["", "AAAA", "", "BBBB"], ["ABABAB", "BABABA", "A", "B"], ["AAAAAAAA", "", "B", "CCCC"]):
            yield {"alpha": "single", "layout": lay, "mixtures": None, "n": 12, "letters": "ABC"}

    def run(self, case, rec):
        table, selected, _ = build(self.w, case["layout"], case["alpha"])
        size_of = lambda m: m["size"] if "size" in m else sum(m["counts"])  # noqa: E731
        ms = case["mixtures"] or mixtures(case["alpha"], [c for c in case["letters"] if c != "."], os.environ.get("VERIF_TIER"))
        for m in ms:
            self.one(case, table, selected, m, size_of(m), rec)

    def one(self, case, table, selected, m, size, rec):
        from mixtera.core.query.query_result import QueryResult

        qr = QueryResult(self.w.cmdc, table, make_mixture(m))
        where = f"layout={case['layout']} alphabet={case['alpha']} mixture={m}: "
        chunks, ended = drain(qr, rec)
        rec.trace()
        rec.count("query results drained")
        if not ended:
            rec.fail("endless", where + "more than 200 chunks")
            return
        complete = None
        if m["kind"] == "arbitrary":
            complete = "all"
        elif not m["strict"] and covers(m, case["alpha"], case["layout"]):
            complete = "lt-chunk"
        check_chunks(rec, chunks, selected, size, complete, where)
        # asking again after the end must not produce anything new
        more, _ = drain(qr, rec, 3)
        if more:
            rec.fail("after-end", where + "chunks after the end of the result")


PULL_CASES = [
    {"alpha": "single", "layout": ["AAB", "BA"], "m": {"kind": "arbitrary", "size": 2}},
    {"alpha": "single", "layout": ["AABB", ""], "m": {"kind": "static", "keys": [{"l": "a"}, {"l": "b"}], "counts": [1, 1], "strict": True}},
    {"alpha": "single", "layout": ["AAAB", ""], "m": {"kind": "static", "keys": [{"l": "a"}, {"l": "b"}], "counts": [1, 1], "strict": False}},
]


class Pullers:
    """2-3 processes share one query result; all schedules up to a preemption bound."""

    name = "concurrent-pullers"
    cpu_limit = 600
    wall_limit = 800

    def setup(self):
        self.w = world.world()

    def cases(self, tier):
        for c in PULL_CASES:
            for first in range(0, 12):  # one subtree per position of the first preemption
                yield dict(c, pullers=2, bound=3 if tier == "thorough" else 2, first=first)
            yield dict(c, pullers=3, bound=2 if tier == "thorough" else 1, first=None)

    def run(self, case, rec):
        import mixtera.core.query.query_result as qmod

        table, selected, _ = build(self.w, case["layout"], case["alpha"])
        m = case["m"]
        size = m["size"] if "size" in m else sum(m["counts"])
        complete = "all" if m["kind"] == "arbitrary" else ("lt-chunk" if not m["strict"] else None)

        def one(chooser):
            with sched.patched([qmod]):
                qr = qmod.QueryResult(self.w.cmdc, table, make_mixture(m))
                views = [sched.clone_state(qr) for _ in range(case["pullers"])]
                got = [[] for _ in views]

                def puller(i):
                    def f():
                        for _ in range(20):
                            try:
                                got[i].append(next(views[i]))
                            except StopIteration:
                                return
                        raise AssertionError("endless")
                    return f

                s = sched.Scheduler(chooser)
                tasks = [s.spawn(puller(i)) for i in range(len(views))]
                s.run()
            for t in tasks:
                if t.exc is not None:
                    raise t.exc
            return got

        def on(res, choices):
            rec.trace()
            rec.count("schedules")
            flatlist = [c for g in res for c in g]
            rec.step(len(flatlist))
            before = len(rec.fails)
            check_chunks(rec, flatlist, selected, size, complete, f"{case['layout']} {m} schedule={choices}: ")
            rec.outcome(tuple(len(g) for g in res))
            return len(rec.fails) == before

        # split the tree among workers by where the first deviation happens
        first = case["first"]
        if first is None:
            n, ok = sched.explore(one, case["bound"], limit=6000, on_run=on)
            if not ok and not rec.fails:
                rec.cap("concurrent-pullers: 6000 schedules")
            return
        base = sched.Chooser()
        one(base)
        idx = [i for i in range(len(base.log)) if i % 12 == first]
        for i in idx:
            opts, _, dev = base.log[i]
            for alt in range(1, opts):
                prefix = [x[1] for x in base.log[:i]] + [alt]
                if not explore_from(one, prefix, case["bound"], on):
                    return


def explore_from(run, prefix, bound, on):
    """all schedules that start with prefix (which contains its last entry as only deviation so far)"""
    stack = [prefix]
    while stack:
        p = stack.pop()
        ch = sched.Chooser(p)
        res = run(ch)
        if on(res, [c for _, c, _ in ch.log]) is False:
            return False
        cost = 0
        for i, (opts, c, dev) in enumerate(ch.log):
            if i >= len(p):
                for alt in range(1, opts):
                    if cost + dev <= bound:
                        stack.append([x[1] for x in ch.log[:i]] + [alt])
            cost += dev if c else 0
    return True


class Forked:
    """Real processes forked from one query result; every order of their requests."""

    name = "forked-pullers"

    def setup(self):
        self.w = world.world()

    def cases(self, tier):
        for c in PULL_CASES:
            for pre in (0, 1):
                for order in itertools.product((0, 1), repeat=6 if tier == "thorough" else 5):
                    yield dict(c, order=list(order), pre=pre)

    def run(self, case, rec):
        from mixtera.core.query.query_result import QueryResult

        table, selected, _ = build(self.w, case["layout"], case["alpha"])
        m = case["m"]
        size = m["size"] if "size" in m else sum(m["counts"])
        qr = QueryResult(self.w.cmdc, table, make_mixture(m))
        got = []
        for _ in range(case["pre"]):  # the parent already took chunks before forking
            got.append(flatc(next(qr)._result_index))
        procs = []
        for _ in range(2):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(w1), os.close(r2)
                    for _, a, b in procs:
                        os.close(a), os.close(b)
                    while os.read(r1, 1):
                        try:
                            res = flatc(next(qr)._result_index)
                        except StopIteration:
                            res = None
                        except BaseException as e:  # noqa: BLE001
                            res = "error: " + repr(e)
                        b = pickle.dumps(res)
                        os.write(w2, len(b).to_bytes(4, "big") + b)
                finally:
                    os._exit(0)
            os.close(r1), os.close(w2)
            procs.append((pid, w1, r2))
        try:
            for o in case["order"] + [0] * 8 + [1] * 8:
                _, w1, r2 = procs[o]
                os.write(w1, b"x")
                n = int.from_bytes(os.read(r2, 4), "big")
                b = b""
                while len(b) < n:
                    b += os.read(r2, n - len(b))
                res = pickle.loads(b)
                if isinstance(res, str):
                    rec.fail("forked-error", f"{case}: {res}")
                    return
                if res is not None:
                    got.append(res)
                    rec.step()
        finally:
            for pid, w1, r2 in procs:
                os.close(w1), os.close(r2)
                os.waitpid(pid, 0)
        rec.trace()

        class C:
            pass

        seen = set()
        for res in got:
            for k, v in res.items():
                for s in v:
                    if s in seen or s not in selected:
                        rec.fail("duplicate", f"{case}: sample {s} handed out twice or not selected: {got}")
                        return
                    seen.add(s)
        missing = selected - seen
        limit = 1 if m["kind"] == "arbitrary" else (size if not m["strict"] else 10**9)
        if len(missing) >= limit:
            rec.fail("lost", f"{case}: never handed out: {sorted(missing)}; got={got}")
        rec.state((str(case["m"]), tuple(sorted(seen))))
        rec.outcome(str([sorted(g) for g in got]))


HARNESSES = [Single(), Pullers(), Forked()]
