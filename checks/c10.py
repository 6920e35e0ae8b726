"""C10: a crash while writing the query cache is harmless."""
import os
import shutil
from pathlib import Path

import c09
from mc import env, fault

LEVEL = "model_checking"
TECHNIQUE = "exhaustive crash-point enumeration: the real process is killed before every file-system operation below the cache directory, in the middle of every write, or finds the disk full from there on; then a new process executes the same and other queries"
RULE = ("a case = scenario (empty cache, entry of another query, outdated entry, leftover of an earlier crash, colliding key) x fault mode x crash point; afterwards a fresh process executes the same query, the same again, another mixture, "
        "and the other query; each result must equal an execution without cache; states = distinct cache directory contents after the crash, transitions = crash points, traces = compared executions")
ASSUMPTIONS = ["completed file-system operations survive the death of the process (process crash, not power loss)", "DuckDB itself is crash safe"]

SCEN = ("cold", "other-entry", "outdated", "two-outdated", "leftover")


class Site(c09.Site):
    """the site of C09 on an existing directory"""

    def __init__(self, root, collide):
        from c08 import parser
        from mc import jobs

        self.root = Path(root)
        self.st = jobs.stub(self.root / "dir")
        self.st._mdc._metadata_factory.add_parser("P", parser("P", [("l", "STRING", False)]))
        if collide and hasattr(self.st._query_cache, "_get_query_hash"):
            self.st._query_cache._get_query_hash = lambda q: "same"
        self.n = 0
        self.contents = {}


def in_child(fn, prefix="/nonexistent", n=-1, mode=0):
    return fault.child(fn, prefix, n, mode)


class Crash:
    name = "crash"
    cpu_limit = 600
    wall_limit = 800
    PARTS = 4

    def cases(self, tier):
        for scen in SCEN:
            for collide in (False, True):
                for mode in (fault.DIE, fault.TEAR, fault.NOSPACE):
                    if tier == "quick" and collide and mode != fault.DIE:
                        continue
                    for q in ("qab-arb", "qa-arb") if tier == "thorough" else ("qab-arb",):
                        for part in range(self.PARTS):
                            yield {"scen": scen, "collide": collide, "mode": mode, "q": q, "part": part}

    def prepare(self, case):
        """the directory as it is before the crash (built in a child: the parent never opens the database)"""
        root = Path(env.fresh_dir("c10"))
        shutil.rmtree(root)

        # paths of the sources are stored in the data base, so build at the final place
        saved = env.fresh_dir
        env.fresh_dir = lambda name="d": (root.mkdir(parents=True) or str(root)) if name == "c09" else saved(name)
        try:
            def g():
                s = c09.Site(case["collide"])
                s.register("1")
                qs, mix = case["q"][1:].split("-")
                other = "a" if qs == "ab" else "ab"
                if case["scen"] == "other-entry":
                    s.execute(other, "arb")
                if case["scen"] in ("outdated", "two-outdated"):
                    s.execute(qs, mix)
                    if case["scen"] == "two-outdated":
                        s.execute(other, "arb")
                    s.register("2")
                s.st._mdc._connection.close()

            code, info = in_child(g)
        finally:
            env.fresh_dir = saved
        assert code == 0, info
        return root

    def run(self, case, rec):
        root = self.prepare(case)
        keep = str(root) + ".keep"
        os.rename(root / "dir", keep)
        qs, mix = case["q"][1:].split("-")
        prefix = str(root / "dir" / "querycache")
        try:
            n = 0
            crashed = True
            while crashed:
                if n % self.PARTS == case["part"]:
                    shutil.copytree(keep, root / "dir")
                    if case["scen"] == "leftover":  # an earlier crash in the middle
                        in_child(lambda: Site(root, case["collide"]).execute(qs, mix, "lost"), prefix, 11, fault.DIE)

                    def victim():
                        s = Site(root, case["collide"])
                        try:
                            s.execute(qs, mix, "victim")
                        finally:
                            if case["mode"] == fault.NOSPACE:
                                fault.disarm()
                                # the same process goes on once there is space again
                                want = s.fresh(qs, mix)
                                s.execute(qs, mix, "again")
                                got = drain(s, "again")
                                if got != want:
                                    raise AssertionError(f"MISMATCH the surviving process gets {got[:2]} instead of {want[:2]}")

                    code, info = in_child(victim, prefix, n, case["mode"])
                    where = f"{case} crash point {n}: "
                    if "MISMATCH" in info:
                        rec.fail("survivor", where + info)
                        return
                    if case["mode"] == fault.NOSPACE:
                        crashed = code != 0
                        if crashed and "OSError" not in info and "No space" not in info:
                            rec.fail("survivor", where + f"the surviving process fails: {info}")
                            return
                    else:
                        crashed = code == 137
                        if code not in (0, 137):
                            rec.fail("error", where + f"the query failed without being killed: {info}")
                            return
                    rec.step()
                    rec.state(tuple(sorted((k.split("#")[0], v) for k, v in c09.tree_digest(prefix).items())))
                    rec.outcome((case["scen"], code, len(c09.tree_digest(prefix))))

                    def later():
                        s = Site(root, case["collide"])
                        other = "a" if qs == "ab" else "ab"
                        for i, (q, m) in enumerate([(qs, mix), (qs, mix), (qs, "inf"), (other, "arb"), (other, "arb"), (qs, "st")]):
                            want = s.fresh(q, m)
                            try:
                                j, ok = s.execute(q, m, f"later{i}")
                            except Exception as e:  # noqa: BLE001
                                raise AssertionError(f"later query {i} ({q}, {m}) fails: {type(e).__name__}: {e}") from e
                            got = drain(s, j)
                            if got != want:
                                raise AssertionError(f"later query {i} ({q}, {m}) gets {len(got)} chunks {got[:2]} instead of {len(want)}: {want[:2]}")

                    rec.trace(6)
                    code, info = in_child(later)
                    shutil.rmtree(root / "dir")
                    if code != 0:
                        rec.fail("later", where + info)
                        return
                n += 1
                if n > 300:
                    rec.cap("300 crash points")
                    break
            if n < 5 * self.PARTS // 4:
                rec.fail("no-crash-points", f"{case}: only {n} operations below the cache directory are observed")
        finally:
            shutil.rmtree(root, ignore_errors=True)
            shutil.rmtree(keep, ignore_errors=True)


def drain(s, job):
    out = []
    while (c := s.step(job)) is not None:
        out.append(c)
    return out


HARNESSES = [Crash()]
