"""C26: registration stores each sample's properties faithfully."""
import itertools
import json
import os
import tarfile
import io
from pathlib import Path

from c24 import perm
from mc import env

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of records over an alphabet of valid, missing, wrong-typed and wrong-multiplicity values for every kind of declared property, of schemas, file layouts and completion orders of the registration workers, on the real collection and DuckDB"
RULE = ("a case = a schema and the first record, a file layout, or a built-in parser; within it all records, pairs of records, completion orders; every registration is compared with an independent evaluation of the schema: "
        "valid records are stored exactly, at their position, one invalid record refuses the whole dataset and leaves nothing; states = distinct (schema, records), transitions = records, traces = registrations compared")
ASSUMPTIONS = ["property names are plain identifiers that are not reserved by SQL", "a null inside a list may be refused or stored as it is", "keyword arguments of add_metadata that the schema does not declare are ignored by design"]

MISSING = object()
VALUES = [MISSING, None, "a", "b", "", "z", "ü'\"; DROP", "a,b", 5, 1.5, True, [], ["a"], ["a", "b"], ["b", "a", "a"], ["z"], ["a", 5], ["a", None], [None], [["a"]], {"x": 1}, [""], ["a'b", "ü"]]
OPTIONS = {"a", "b", "", "ü'\"; DROP", "a,b"}
KINDS = [(d, m, n) for d in ("STRING", "ENUM") for m in (False, True) for n in (False, True)]
REJECT, EITHER = "reject", "either"


def text(line):
    return line


def prepare(tier):
    env.boot()


def expected(kind, v, options=OPTIONS):
    """what is stored, REJECT, or (EITHER, value)"""
    d, multi, nullable = kind
    if v is MISSING or v is None:
        return None if nullable else REJECT
    items = v if isinstance(v, list) else [v]
    if isinstance(v, list) and not multi:
        return REJECT
    if any(not isinstance(x, str) for x in items):
        if d == "STRING" and all(isinstance(x, str) or x is None for x in items):
            return (EITHER, items)
        return REJECT
    if d == "ENUM" and any(x not in options for x in items):
        return REJECT
    return items if multi else v


def schema_parser(name, props, options=OPTIONS):
    from mixtera.core.datacollection.index.parser import MetadataParser, MetadataProperty

    class P(MetadataParser):
        @classmethod
        def get_properties(cls):
            return [MetadataProperty(name=n, dtype=k[0], multiple=k[1], nullable=k[2], enum_options=set(options) if k[0] == "ENUM" else None) for n, k in props]

        def parse(self, line_number, payload, **kwargs):
            self.add_metadata(sample_id=line_number, **payload)

    P.__name__ = name
    return P


class Site:
    def __init__(self):
        from mixtera.core.datacollection import MixteraDataCollection

        self.root = Path(env.fresh_dir("c26"))
        (self.root / "mdc").mkdir()
        self.mdc = MixteraDataCollection(self.root / "mdc")
        self.n = 0

    def register(self, parser, files, cls=None, write=None):
        """files: lists of records -> (True / False / error text, path -> rows)"""
        from mixtera.core.datacollection.datasets import JSONLDataset

        self.n += 1
        name = f"D{self.n}"
        d = self.root / name
        d.mkdir()
        for i, recs in enumerate(files):
            with open(d / f"{i}.jsonl", "w", encoding="utf-8") as f:
                for r in recs:
                    f.write(json.dumps(r) + "\n")
        if parser is not None and not isinstance(parser, str):
            self.mdc._metadata_factory.add_parser(parser.__name__, parser, overwrite=True)
        try:
            return name, self.mdc.register_dataset(name, str(d), cls or JSONLDataset, text, parser if isinstance(parser, str) else parser.__name__)
        except Exception as e:  # noqa: BLE001
            return name, f"{type(e).__name__}: {e}"

    def rows(self, name, props):
        """{(file name, position): values} of a dataset"""
        c = self.mdc._connection
        cols = ", ".join("s." + p for p in props)
        got = c.execute(f"SELECT f.location, s.sample_id, {cols} FROM samples s JOIN files f ON s.file_id = f.id AND s.dataset_id = f.dataset_id JOIN datasets d ON d.id = s.dataset_id WHERE d.name = ? ", [name]).fetchall()
        out = {}
        for loc, sid, *vals in got:
            k = (Path(loc).name, sid)
            out.setdefault(k, []).append(tuple(vals))
        return out

    def leftovers(self, name):
        c = self.mdc._connection
        return (c.execute("SELECT count(*) FROM samples").fetchone(), c.execute("SELECT count(*) FROM files").fetchone(), self.mdc.list_datasets())

    def drop(self):
        self.mdc._connection.close()
        env.rmtree(str(self.root))


class Base:
    cpu_limit = 300
    wall_limit = 600

    def judge(self, rec, site, label, props, files, want, res, name, before):
        """want: {(file, position): tuple of expectations}"""
        rec.trace()
        verdicts = [w for ws in want.values() for w in ws]
        if any(isinstance(w, str) and w is REJECT for w in verdicts):
            if res is True:
                rec.fail("accepted", f"{label}: accepted, stored {site.rows(name, props)}")
                return False
        elif res is not True:
            if any(isinstance(w, tuple) and w and w[0] is EITHER for w in verdicts):
                pass
            else:
                rec.fail("refused", f"{label}: valid records are refused: {res}")
                return False
        if res is not True:
            after = site.leftovers(name)
            if after != before:
                rec.fail("leftovers", f"{label}: refused ({res}), but left {after} instead of {before}")
                return False
            rec.outcome("refused")
            return True
        got = site.rows(name, props)
        exp = {k: [tuple(w[1] if isinstance(w, tuple) and w and w[0] is EITHER else w for w in ws)] for k, ws in want.items()}
        rec.outcome(str(exp))
        if got != exp:
            rec.fail("stored", f"{label}: stored {got} instead of {exp}")
            return False
        return True


class Records(Base):
    name = "records"

    def cases(self, tier):
        for i in range(len(KINDS)):
            for lay in ("one", "before", "after", "other-file"):
                yield {"kinds": [i], "layout": lay}
        pairs = list(itertools.product(range(len(KINDS)), repeat=2))
        for i, j in pairs if tier == "thorough" else pairs[::5]:
            yield {"kinds": [i, j], "layout": "one"}

    def run(self, case, rec):
        kinds = [KINDS[i] for i in case["kinds"]]
        props = [(f"zp{n}" if n == 0 else f"ap{n}", k) for n, k in enumerate(kinds)]
        names = [n for n, _ in props]
        site = Site()
        try:
            par = schema_parser("P", props)
            vals = VALUES if len(kinds) == 1 else VALUES[:8] + VALUES[11:15] + VALUES[16:18]
            good = {n: ("b" if not k[1] else ["b", "a"]) for n, k in props}
            for vs in itertools.product(vals, repeat=len(kinds)):
                r = {n: v for n, v in zip(names, vs) if v is not MISSING}
                w = tuple(expected(k, v) for k, v in zip(kinds, vs))
                g = tuple(good[n] for n in names)
                if case["layout"] == "one":
                    files, want = [[r]], {("0.jsonl", 0): w}
                elif case["layout"] == "before":
                    files, want = [[good, r]], {("0.jsonl", 0): g, ("0.jsonl", 1): w}
                elif case["layout"] == "after":
                    files, want = [[r, good, good]], {("0.jsonl", 0): w, ("0.jsonl", 1): g, ("0.jsonl", 2): g}
                else:
                    files, want = [[good], [r], []], {("0.jsonl", 0): g, ("1.jsonl", 0): w}
                before = site.leftovers(None)
                rec.state((str(kinds), str(vs), case["layout"]))
                rec.step(sum(map(len, files)))
                name, res = site.register(par, files)
                if not self.judge(rec, site, f"schema {props}, files {files}", names, files, want, res, name, before):
                    return
        finally:
            site.drop()


def layout_parser():
    """a parser that can be sent to the worker processes of a real pool"""
    if "LayoutParser" in globals():
        return globals()["LayoutParser"]
    from mixtera.core.datacollection.index.parser import MetadataParser, MetadataProperty

    class LayoutParser(MetadataParser):
        @classmethod
        def get_properties(cls):
            return [MetadataProperty(name="v", dtype="STRING", multiple=False, nullable=False), MetadataProperty(name="many", dtype="STRING", multiple=True, nullable=True)]

        def parse(self, line_number, payload, **kwargs):
            v = payload[".json"]["v"] if ".json" in payload else payload["v"]
            self.add_metadata(sample_id=line_number, v=v, many=[v, v + "'"] if line_number % 2 else None)

    LayoutParser.__qualname__ = "LayoutParser"
    globals()["LayoutParser"] = LayoutParser
    return LayoutParser


class Layout(Base):
    """every value at its own file and position, whatever the completion order of the workers"""

    name = "layout"

    def cases(self, tier):
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for sizes in itertools.product(range(4) if n < 3 else range(3), repeat=n):
                for fmt in ("jsonl", "parquet", "tar"):
                    if fmt == "tar" and 0 in sizes:
                        continue  # an empty archive has no index
                    yield {"sizes": list(sizes), "fmt": fmt}
        yield {"sizes": "many", "fmt": "jsonl"}
        yield {"sizes": [2, 0, 3, 1, 2, 5], "fmt": "jsonl", "pool": True}

    def run(self, case, rec):
        from mixtera.core.datacollection import mixtera_data_collection as m
        from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset, WebDataset
        P = layout_parser()
        sizes = case["sizes"]
        if sizes == "many":
            sizes = [1 + (i % 7 == 0) for i in range(2101)]
        nperm = 1
        for i in range(2, len(sizes) + 1):
            nperm *= i
        for order in range(min(nperm, 24)) if len(sizes) < 10 else (0, 10**60 + 12345):
            site = Site()
            saved = getattr(m, "DummyPool", None)

            class Pool:
                def __init__(self, *a, **k):
                    pass

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    pass

                def map(self, f, it, *a):
                    it = list(it)
                    out = [None] * len(it)
                    for i in perm(order, len(it)):
                        out[i] = f(it[i])
                    return out

                def imap_unordered(self, f, it, *a):
                    it = list(it)
                    return iter([f(it[i]) for i in perm(order, len(it))])

                imap, starmap = map, None

            try:
                if saved is not None and not case.get("pool"):
                    m.DummyPool = Pool
                d = site.root / "src"
                d.mkdir()
                want = {}
                for i, n in enumerate(sizes):
                    vals = [f"f{i}s{j}" for j in range(n)]
                    ext = {"jsonl": "jsonl", "parquet": "parquet", "tar": "tar"}[case["fmt"]]
                    p = d / f"{i}.{ext}"
                    if ext == "jsonl":
                        p.write_text("".join(json.dumps({"v": v}) + "\n" for v in vals))
                    elif ext == "parquet":
                        import pyarrow as pa
                        import pyarrow.parquet as pq

                        pq.write_table(pa.table({"v": pa.array(vals, pa.string())}), p, row_group_size=1 + i)
                    else:
                        with tarfile.open(p, "w", format=tarfile.USTAR_FORMAT) as t:
                            for j, v in enumerate(vals):
                                b = json.dumps({"v": v}).encode()
                                ti = tarfile.TarInfo(f"k{j}.json")
                                ti.size = len(b)
                                t.addfile(ti, io.BytesIO(b))
                    for j, v in enumerate(vals):
                        want[(p.name, j)] = [(v, [v, v + "'"] if j % 2 else None)]
                rec.state((str(case), order))
                rec.step(len(sizes))
                rec.trace()
                # another dataset with the same files registered before and after must not matter
                site.mdc._metadata_factory.add_parser("P", P)
                cls = {"jsonl": JSONLDataset, "parquet": ParquetDataset, "tar": WebDataset}[case["fmt"]]
                env_saved = os.environ.pop("PYTEST_CURRENT_TEST", None) if case.get("pool") else None
                try:
                    for name in ("D1", "D2"):
                        if not site.mdc.register_dataset(name, str(d), cls, text, "P"):
                            rec.fail("refused", f"{case}: refused")
                            return
                        if len(sizes) > 100:
                            break
                finally:
                    if env_saved:
                        os.environ["PYTEST_CURRENT_TEST"] = env_saved
                for name in ("D1", "D2")[: 1 if len(sizes) > 100 else 2]:
                    got = site.rows(name, ["v", "many"])
                    if got != want:
                        bad = [(k, got.get(k), want.get(k)) for k in {*got, *want} if got.get(k) != want.get(k)][:4]
                        rec.fail("position", f"{case}, completion order {perm(order, len(sizes))[:8]}, {name}: (sample, stored, expected): {bad}")
                        return
                rec.outcome(str(want)[:2000])
            finally:
                if saved is not None:
                    m.DummyPool = saved
                site.drop()
            if case.get("pool"):
                break


class Schemas(Base):
    """several datasets whose schemas overlap: what is stored is what was given, or the dataset is refused"""

    name = "schemas"

    SCHEMAS = {
        "s": ("STRING", False, {"a"}), "m": ("STRING", True, {"a"}), "e-ab": ("ENUM", False, {"a", "b"}), "e-bc": ("ENUM", False, {"b", "c"}), "em-ab": ("ENUM", True, {"a", "b"}), "em-ca": ("ENUM", True, {"c", "a"}),
        "e-quote": ("ENUM", False, {"a", "it's", '"q"', "b;--", ""}), "e-one": ("ENUM", False, {"a"}), "e-sp": ("ENUM", False, {"A", "a", " a", "a b", "ü"}),
    }

    def cases(self, tier):
        names = list(self.SCHEMAS)
        for a in names:
            for b in [None, *names]:
                for case in ("p", "P") if b else ("p",):
                    yield {"first": a, "second": b, "name": case}

    def run(self, case, rec):
        site = Site()
        try:
            stored = {}
            for i, s in enumerate(x for x in (case["first"], case["second"]) if x):
                d, multi, options = self.SCHEMAS[s]
                pname = case["name"] if i else "p"
                par = schema_parser(f"P{i}", [(pname, (d, multi, True))], options)
                vals = sorted(options | {"a"} if d == "STRING" else options)
                recs = [{pname: v if not multi else [v, vals[0]]} for v in vals] + [{}]
                before = site.leftovers(None)
                rec.step(len(recs))
                rec.state((str(case), i))
                name, res = site.register(par, [recs])
                rec.trace()
                want = {("0.jsonl", j): [(r.get(pname),)] for j, r in enumerate(recs)}
                if res is not True:
                    if i == 0:
                        rec.fail("schema-refused", f"{case}: the first dataset with {d}, multiple {multi}, options {options} is refused: {res}")
                        return
                    # a schema that is compatible with what exists must be accepted
                    f = self.SCHEMAS[case["first"]]
                    if multi == f[1] and (f[0] == "STRING" or options <= f[2] and d == "ENUM"):
                        rec.fail("schema-refused", f"{case}: the second dataset is refused: {res}")
                        return
                    if site.leftovers(None) != before:
                        rec.fail("leftovers", f"{case}: refused, but left {site.leftovers(None)} instead of {before}")
                        return
                    rec.outcome((str(case), "refused"))
                else:
                    stored[name] = want
                    rec.outcome((str(case), str(want)))
                for n, w in stored.items():
                    got = site.rows(n, ["p"])
                    if got != w:
                        rec.fail("schema-stored", f"{case}: dataset {n}: stored {got} instead of {w}")
                        return
        finally:
            site.drop()


class Builtin(Base):
    """the parsers that come with the system"""

    name = "builtin"

    META = [MISSING, {}, None]

    def cases(self, tier):
        for p in ("RED_PAJAMA", "SLIM_PAJAMA", "IMAGENET_WEB_DATASET", "FINEWEB", "MSCOCO", "PILE"):
            yield {"parser": p}

    def payloads(self, p):
        """(payload, expected properties or REJECT or EITHER)"""
        if p == "RED_PAJAMA":
            langs = {MISSING: None, "none": None, "empty": None, "en": ["en"], "two": ["en", "de"]}
            for lk, dk in itertools.product(langs, (MISSING, None, "", "2022-01")):
                meta = {}
                if lk is not MISSING:
                    meta["language"] = {"none": None, "empty": [], "en": [{"name": "en", "score": "1"}], "two": [{"name": "en"}, {"name": "de"}]}[lk]
                if dk is not MISSING:
                    meta["publication_date"] = dk
                yield {"meta": meta, "text": "x"}, {"language": langs[lk], "publication_date": dk if isinstance(dk, str) and dk else None}
            yield {"text": "x"}, {"language": None, "publication_date": None}
            yield {"meta": {"language": [{"nom": "en"}]}}, REJECT
            yield {"meta": {"language": "en"}}, REJECT
            yield {"meta": {"language": [{"name": 5}]}}, REJECT
            yield {"meta": {"publication_date": 2022}}, REJECT
            yield {"meta": {"publication_date": ["2022"]}}, REJECT
        elif p in ("SLIM_PAJAMA", "PILE"):
            key, ok = ("redpajama_set_name", "RedPajamaC4") if p == "SLIM_PAJAMA" else ("pile_set_name", "Gutenberg (PG-19)")
            for v in (ok, "RedPajamaGithub" if p == "SLIM_PAJAMA" else "Github"):
                yield {"meta": {key: v, "other": 1}}, {key: v}
            for bad in (None, "", ok.lower(), "nope", [ok], 5, True, {"a": 1}):
                yield {"meta": {key: bad}}, REJECT
            yield {"meta": {}}, REJECT
            yield {}, REJECT
            yield {key: ok}, REJECT
        elif p == "IMAGENET_WEB_DATASET":
            for v in (0, 7, 999):
                yield {".cls": v, ".jpg": b"x"}, {"class_label": str(v)}
            yield {".cls": "dog"}, {"class_label": "dog"}
            yield {".jpg": b"x"}, REJECT
            yield {}, REJECT
            yield {".cls": None}, REJECT
        elif p == "FINEWEB":
            for d, lang in itertools.product(("CC-1", "", "ü"), ("en",)):
                yield {"dump": d, "language": lang, "text": "x"}, {"dump": d, "language": lang}
            for bad in ({"dump": "a"}, {"language": "en"}, {"dump": None, "language": "en"}, {"dump": "a", "language": "de"}, {"dump": 5, "language": "en"}, {"dump": ["a"], "language": "en"}, {}):
                yield bad, REJECT
        else:
            for x in ({}, {".jpg": b""}):
                yield x, {"parity": None}

    def run(self, case, rec):
        from mixtera.core.datacollection.datasets.dataset import Dataset  # noqa: F401
        from mixtera.core.datacollection.datasets import JSONLDataset

        p = case["parser"]

        class Feed(JSONLDataset):
            """records from memory (payloads that JSON cannot express)"""

            data = []

            @staticmethod
            def inform_metadata_parser(loc, metadata_parser):
                for i, x in enumerate(Feed.data):
                    metadata_parser.parse(line_number=i, payload=x)

        site = Site()
        try:
            allp = list(self.payloads(p))
            ok = next(x for x in allp if x[1] is not REJECT)
            for n, (payload, want) in enumerate(allp):
                for recs in ([(payload, want)], [ok, (payload, want), ok]):
                    Feed.data = [r for r, _ in recs]
                    before = site.leftovers(None)
                    rec.step(len(recs))
                    rec.state((p, n, len(recs)))
                    name, res = site.register(p, [[]], Feed)
                    props = sorted(ok[1])
                    exp = {("0.jsonl", i): tuple(REJECT for _ in props) if w is REJECT else tuple(str(i % 3) if p == "MSCOCO" else w[x] for x in props) for i, (_, w) in enumerate(recs)}
                    if not self.judge(rec, site, f"{p}, records {Feed.data}", props, None, exp, res, name, before):
                        return
        finally:
            site.drop()


HARNESSES = [Records(), Layout(), Schemas(), Builtin()]
