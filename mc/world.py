"""A small real data collection and helpers to build query results over chosen interval layouts."""
import json
import os
from pathlib import Path

from mc import env

_world = {}


def ident(s):
    return s


class World:
    """Two JSONL datasets with two files each (ids are taken from the real registry), 64 lines per file."""

    LINES = 64

    def __init__(self):
        from mixtera.core.datacollection import MixteraDataCollection
        from mixtera.core.datacollection.datasets import JSONLDataset
        from mixtera.core.datacollection.index.parser import MetadataParser, MetadataProperty

        class P(MetadataParser):
            @classmethod
            def get_properties(cls):
                return [MetadataProperty(name="lang", dtype="STRING", multiple=False, nullable=True)]

            def parse(self, line_number, payload, **kwargs):
                self.add_metadata(sample_id=line_number, lang="x")

        self.root = Path(env.fresh_dir("world"))
        mdcdir = self.root / "mdc"
        mdcdir.mkdir()
        self.mdc = MixteraDataCollection(mdcdir)
        self.mdc._metadata_factory.add_parser("P", P)
        self.files = []  # (dataset_id, file_id, path)
        for d in range(2):
            dd = self.root / f"ds{d}"
            dd.mkdir()
            for f in range(2):
                with open(dd / f"f{f}.jsonl", "w") as fp:
                    for i in range(self.LINES):
                        fp.write(json.dumps({"text": f"d{d}f{f}s{i}"}) + "\n")
            assert self.mdc.register_dataset(f"DS{d}", str(dd), JSONLDataset, _text, "P")
        for fid, did, _, loc in sorted(self.mdc._get_all_files()):
            self.files.append((did, fid, loc))
        self.cmdc = CachingMdc(self.mdc)
        self.text = {}
        for did, fid, loc in self.files:
            with open(loc) as fp:
                self.text[fid] = [json.loads(x)["text"] for x in fp]


def _text(line):
    import json as j

    return j.loads(line)["text"]


class CachingMdc:
    """The real data collection; id look-ups (pure here) are remembered to keep single cases fast."""

    def __init__(self, mdc):
        self.__dict__["_m"] = mdc
        self.__dict__["_c"] = {}

    def __getattr__(self, name):
        v = getattr(self._m, name)
        if not (callable(v) and name.startswith("_get_") and name.endswith("_by_id")):
            return v

        def f(x):
            k = (name, x)
            if k not in self._c:
                self._c[k] = v(x)
            return self._c[k]

        return f


def world():
    key = os.getpid()
    if key not in _world:
        _world[key] = World()
    return _world[key]


def table(rows, props, types=None):
    """rows: [(dataset_id, file_id, {prop: value or list or None}, start, end)]; props: property column names"""
    import pyarrow as pa

    props = sorted(props)
    multi = {p: any(isinstance(r[2].get(p), (list, tuple)) for r in rows) for p in props}
    cols = {
        "dataset_id": pa.array([r[0] for r in rows], pa.int32()),
        "file_id": pa.array([r[1] for r in rows], pa.int32()),
    }
    for p in props:
        cols[p] = pa.array([(list(r[2][p]) if multi[p] and r[2].get(p) is not None else r[2].get(p)) for r in rows],
                           pa.list_(pa.string()) if multi[p] else pa.string())
    cols["group_id"] = pa.array([0] * len(rows), pa.int64())
    cols["interval_start"] = pa.array([r[3] for r in rows], pa.int32())
    cols["interval_end"] = pa.array([r[4] for r in rows], pa.int32())
    return pa.table(cols)


def rows_from_strings(w, layout, alphabet):
    """layout: list of strings, one per file; each char selects the properties of that sample via alphabet, '.' = not
    selected.  Returns interval rows in the order the query produces them, and {domain char: [(file_id, sample)]}"""
    rows, members = [], {}
    for (did, fid, _), s in zip(w.files, layout):
        i = 0
        while i < len(s):
            j = i
            while j < len(s) and s[j] == s[i]:
                j += 1
            if s[i] != ".":
                rows.append((did, fid, alphabet[s[i]], i, j))
                members.setdefault(s[i], []).extend((fid, k) for k in range(i, j))
            i = j
    rows.sort(key=lambda r: (r[0], r[1], json.dumps(r[2], sort_keys=True), r[3]))
    return rows, members


def flat(index):
    """chunk contents {key: {ds: {file: [(s, e)]}}} -> {key: [(ds, file, sample), ...]} keeping order"""
    out = {}
    for k, ds in index.items():
        lst = out.setdefault(_Id(k), [])
        for d, fs in ds.items():
            for f, ivs in fs.items():
                for s, e in ivs:
                    lst.extend((d, f, x) for x in range(s, e))
    return out


class _Id:
    """identity wrapper: mixture keys compare by partial match, we want them apart"""

    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return canon(self.k) == canon(o.k)

    def __repr__(self):
        return f"<{self.k}>"


def canon(k):
    return tuple(sorted((p, tuple(sorted(map(str, v)))) for p, v in k.properties.items()))


def flatc(index):
    """like flat, with canonical tuples as keys"""
    return {canon(k.k): v for k, v in flat(index).items()}
