"""C08: a query selects exactly the samples that satisfy its filter."""
import itertools
import json
import operator
from pathlib import Path

from mc import env, jobs
from mc.world import canon

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of filter expressions (all conditions, all conjunctions and alternatives of two, three over a reduced alphabet) on a universe with every property combination, and of all sample arrangements up to five samples per file, against an independent evaluator"
RULE = ("a case = a batch of filter expressions executed on the real collection and DuckDB; the result's intervals are expanded and compared sample by sample with the oracle; intervals must be disjoint, maximal and "
        "of one file and domain; states = distinct result sets, transitions = conditions evaluated per sample, traces = queries compared")
ASSUMPTIONS = ["filters name existing properties, supported operators and non-empty lists without nulls (others are skipped with a message by design)",
               "samples with equal property values means equal as stored (value order of multi-valued properties included)"]

L = [None, "a", "b"]
E = [None, "x", "y"]
M = [None, [], ["a"], ["b"], ["a", "b"], ["b", "a"]]
KK = [None, ["x"], ["x", "y"]]
OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


def parser(name, props):
    from mixtera.core.datacollection.index.parser import MetadataParser, MetadataProperty

    class P(MetadataParser):
        @classmethod
        def get_properties(cls):
            return [MetadataProperty(name=n, dtype=d, multiple=m, nullable=True, enum_options={"x", "y"} if d == "ENUM" else None) for n, d, m in props]

        def parse(self, line_number, payload, **kwargs):
            self.add_metadata(sample_id=line_number, **{n: payload.get(n) for n, _, _ in props})

    P.__name__ = name
    return P


def text(line):
    return line


class Coll:
    """a collection with its ground truth {(dataset, file, sample): properties}"""

    def __init__(self):
        from mixtera.core.datacollection import MixteraDataCollection

        self.root = Path(env.fresh_dir("c08"))
        (self.root / "mdc").mkdir()
        self.mdc = MixteraDataCollection(self.root / "mdc")
        self.truth = {}
        self.props = {}
        self.n = 0

    def add(self, files, props):
        """files: list of lists of property dicts"""
        from mixtera.core.datacollection.datasets import JSONLDataset

        self.n += 1
        p = f"P{self.n}"
        self.mdc._metadata_factory.add_parser(p, parser(p, props))
        d = self.root / f"ds{self.n}"
        d.mkdir()
        for i, samples in enumerate(files):
            with open(d / f"f{i:05d}.jsonl", "w") as f:
                for s in samples:
                    f.write(json.dumps(s) + "\n")
        assert self.mdc.register_dataset(f"D{self.n}", str(d), JSONLDataset, text, p)
        for n, dt, m in props:
            self.props[n] = (dt, m)
        ids = {loc: (did, fid) for fid, did, _, loc in self.mdc._get_all_files()}
        for i, samples in enumerate(files):
            k = next(v for loc, v in ids.items() if loc.endswith(f"/ds{self.n}/f{i:05d}.jsonl"))
            for j, s in enumerate(samples):
                self.truth[k + (j,)] = {n: s.get(n) for n, _, _ in props}

    def remove(self, n):
        assert self.mdc.remove_dataset(f"D{n}")
        gone = {k for k in self.truth if self.name_of.get(k[0]) == n} if hasattr(self, "name_of") else set()
        for k in gone:
            del self.truth[k]

    def execute(self, selects):
        from mixtera.core.query import Query
        from mixtera.core.query.mixture import ArbitraryMixture

        q = Query.for_job("j")
        for s in selects:
            q = q.select(s)
        q.execute(self.mdc, ArbitraryMixture(7))
        return q.results


def value(props, key, field):
    if field == "dataset_id":
        return key[0]
    if field == "file_id":
        return key[1]
    if field == "sample_id":
        return key[2]
    return props.get(field)


def atom(props, key, cond):
    field, op, want = cond
    v = value(props, key, field)
    if want is None:
        return (v is None) == (op == "==")
    if v is None:
        return False
    wants = want if isinstance(want, list) else [want]
    vs = v if isinstance(v, list) else [v]
    if op == "!=":
        return not any(x == y for x in vs for y in wants)
    return any(OPS[op](x, y) for x in vs for y in wants)


def select_true(props, key, sel):
    conds = [sel] if isinstance(sel, tuple) else sel
    return all(atom(props, key, c) for c in conds)


def conditions(full=True):
    out = []
    for field, vals in (("l", ["a", "b", "zz"]), ("e", ["x", "y", "q"]), ("m", ["a", "b", "zz"]), ("k", ["x", "y", "q"])):
        for op in OPS:
            if op in ("==", "!="):
                out.append((field, op, None))
            wants = vals + [[vals[0]], [vals[0], vals[1]], [vals[1], vals[2]], [vals[2]]] if full else [vals[0], [vals[0], vals[1]]]
            if op not in ("==", "!=") and field in ("e", "k"):
                wants = [w for w in wants if "q" not in w]  # order of values outside an enumeration is not defined
            for w in wants:
                out.append((field, op, w))
    out.append(("new", "==", None))
    out.append(("new", "!=", None))
    out.append(("new", "==", "n"))
    out += [("sample_id", "==", 3), ("sample_id", "!=", [1, 2]), ("file_id", "==", [1, 3]), ("dataset_id", "!=", 1), ("sample_id", ">=", 5)]
    return out


def bad(c):
    return c[0] in ("m", "k") and c[1] in ("<", "<=", ">", ">=")


def check(rec, coll, selects, where):
    try:
        res = coll.execute(selects)
    except Exception as e:  # noqa: BLE001
        ordering = any(bad(c) for s in selects for c in ([s] if isinstance(s, tuple) else s))
        if ordering and type(e).__name__ == "BinderException" and "aggregate" in str(e):
            rec.fail("ordering-on-multi-valued", f"{where}{selects}: {type(e).__name__}: {e}")
            return True  # an error is raised, the other queries go on
        rec.fail("query-failed", f"{where}{selects}: {type(e).__name__}: {e}")
        return False
    want = {}
    for key, props in coll.truth.items():
        if any(select_true(props, key, s) for s in selects):
            want[key] = tuple(sorted((p, tuple(sorted(v if isinstance(v, list) else [v]))) for p, v in props.items() if v is not None))
    rec.step(len(coll.truth) * sum(1 if isinstance(s, tuple) else len(s) for s in selects))
    rec.trace()
    got = {}
    for k, dss in res._chunker_index.items():
        ck = canon(k)
        for d, fs in dss.items():
            for f, ivs in fs.items():
                last = None
                for s, e in ivs:
                    if e <= s:
                        rec.fail("empty-interval", f"{where}{selects}: interval {(s, e)} of file {f}")
                        return False
                    if last is not None and s < last[1]:
                        rec.fail("unordered", f"{where}{selects}: file {f} domain {k}: intervals {ivs}")
                        return False
                    if last is not None and s == last[1]:
                        # allowed only if the samples differ as stored
                        a, b = coll.truth.get((d, f, s - 1)), coll.truth.get((d, f, s))
                        if a == b:
                            rec.fail("not-maximal", f"{where}{selects}: file {f} domain {k}: consecutive equal samples are split: {ivs}")
                            return False
                    last = (s, e)
                    for x in range(s, e):
                        if (d, f, x) in got:
                            rec.fail("duplicate", f"{where}{selects}: sample {(d, f, x)} twice")
                            return False
                        got[(d, f, x)] = ck
    if got != want:
        extra, missing = sorted(set(got) - set(want)), sorted(set(want) - set(got))
        wrong = [k for k in got if k in want and got[k] != want[k]]
        show = [(k, coll.truth.get(k)) for k in (extra + missing + wrong)[:4]]
        rec.fail("wrong-set", f"{where}{selects}: {len(extra)} too many, {len(missing)} missing, {len(wrong)} in the wrong domain, e.g. {show}; got domains {[got.get(k) for k, _ in show]}")
        return False
    rec.state(tuple(sorted(got.items())))
    rec.outcome((len(want), hash(tuple(sorted(want)))))
    return True


class Filters:
    name = "filters"
    cpu_limit = 400
    wall_limit = 600
    B = 40

    def setup(self):
        c = Coll()
        combos = [dict(l=l, e=e, m=m, k=k) for l in L for e in E for m in M for k in KK]
        # neighbours differ in one property or are equal; spread over files of different length
        seq = []
        for i, x in enumerate(combos):
            seq += [x] * (1 + (i % 3 == 0))
        props = [("l", "STRING", False), ("e", "ENUM", False), ("m", "STRING", True), ("k", "ENUM", True)]
        c.add([seq[:5], seq[5:100], seq[100:]], props)
        # a later dataset without some properties and with a new one
        c.add([[{"l": l, "new": n} for l in L for n in (None, "n", "o")]], [("l", "STRING", False), ("new", "STRING", False)])
        self.c = c

    def queries(self, tier):
        full = conditions()
        red = [c for c in conditions(False) if not bad(c)]
        for a in full:
            yield [a]
            yield [[a]]
        full = [c for c in full if not bad(c)]  # K01 is seen with single conditions
        for a, b in itertools.product(full if tier == "thorough" else red, repeat=2):
            yield [[a, b]]
            yield [a, b]
        small = [("l", "==", "a"), ("l", "!=", "a"), ("e", "==", ["x", "y"]), ("m", "==", "a"), ("m", "!=", ["b"]), ("k", "==", None), ("k", "==", "y"), ("l", ">=", "b"), ("sample_id", "<", 4)]
        if tier == "thorough":
            small += [("e", "!=", None), ("new", "==", "n")]
        for a, b, c in itertools.product(small, repeat=3):
            yield [[a, b], c]
            yield [a, [b, c]]
            yield [a, b, c]
            if a < b < c if all(isinstance(x[2], str) for x in (a, b, c)) else True:
                yield [[a, b, c]]
        for a, b, c, d in itertools.product(small[:5], repeat=4):
            yield [[a, b], [c, d]]

    def cases(self, tier):
        n = sum(1 for _ in self.queries(tier))
        for i in range(0, n, self.B):
            yield {"tier": tier, "from": i}

    def run(self, case, rec):
        for i, q in enumerate(itertools.islice(self.queries(case["tier"]), case["from"], case["from"] + self.B)):
            q = [tuple(s) if isinstance(s, tuple) else [tuple(c) for c in s] for s in q]
            if not check(rec, self.c, q, f"query {case['from'] + i}: "):
                return


class Arrangements:
    """all arrangements of up to n samples in a file: one file per arrangement"""

    name = "arrangements"
    cpu_limit = 400
    wall_limit = 600

    LETTERS = {"A": {"l": "a", "m": ["x"]}, "B": {"l": "b", "m": ["x"]}, "C": {"l": "a", "m": ["x", "y"]}, ".": {"l": "z", "m": None}}

    def cases(self, tier):
        n = 5 if tier == "quick" else 6
        for first in "ABC.":
            for q in range(8):
                yield {"n": n, "first": first, "q": q}

    def run(self, case, rec):
        c = self.coll(case)
        qs = [[("l", "!=", "z")], [("l", "==", "a")], [("m", "==", "y")], [("m", "==", "x")], [[("l", "==", "a"), ("m", "==", "y")]], [("l", "==", "b"), ("m", "==", "y")],
              [("l", "==", ["a", "b", "z"])], [("m", "==", None), ("l", "==", "b")]]
        check(rec, c, qs[case["q"]], f"{case}: ")

    cache = (None, None)

    def coll(self, case):
        k = (case["n"], case["first"])
        if Arrangements.cache[0] != k:
            c = Coll()
            files = []
            for n in range(1, case["n"] + 1):
                for rest in itertools.product("ABC.", repeat=n - 1):
                    files.append([self.LETTERS[x] for x in (case["first"],) + rest])
            c.add(files, [("l", "STRING", False), ("m", "STRING", True)])
            Arrangements.cache = (k, c)
        return Arrangements.cache[1]


class Names:
    """properties named like columns the query itself uses work or are rejected when registering"""

    name = "names"

    def cases(self, tier):
        for n in ("diff", "topic", "interval", "license", "file", "dataset", "samples", "base_data", "intervals", "Lang", "start", "x1"):
            yield {"prop": n, "must": True}
        for n in ("group_id", "interval_start", "interval_end", "sample_id", "file_id", "dataset_id"):
            yield {"prop": n, "must": False}

    def run(self, case, rec):
        n = case["prop"]
        for arr in itertools.product("ab", repeat=4):
            c = Coll()
            try:
                c.add([[{n: x} for x in arr], [{n: x} for x in arr[::-1]]], [(n, "STRING", False)])
            except Exception as e:  # noqa: BLE001
                rec.outcome((n, type(e).__name__))
                if case["must"]:
                    rec.fail("name-rejected", f"{case}: {type(e).__name__}: {e}")
                return
            for v in "ab":
                if not check(rec, c, [(n, "==", v)], f"{case} {arr}: "):
                    return
            c.mdc._connection.close()
            env.rmtree(str(c.root))


HARNESSES = [Filters(), Arrangements(), Names()]
