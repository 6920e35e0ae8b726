"""C12: reading sample ranges returns exactly those samples in order, and registration numbers them alike."""
import bz2
import gzip
import io
import itertools
import json
import lzma
import os
import pickle
import tarfile
from pathlib import Path

import numpy as np

from mc import env

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all lists of disjoint sorted ranges over small files x internal layouts x formats on the real readers, against the records written"
RULE = ("a case = format x internal layout (compression, line ends, row groups, tar layout, local or through the server's file request) x number of samples; within it all lists of disjoint ascending ranges (adjacent ones included) of one file and all pairs of lists "
        "of two files in both orders; the numbering of registration is compared sample by sample; states = (layout, ranges), transitions = samples read, traces = reads compared")
ASSUMPTIONS = ["range lists are sorted and disjoint, as produced by queries (the readers document this)"]


def ranges(n):
    """all sorted lists of disjoint non-empty ranges over n samples"""
    def rec(i):
        if i >= n:
            yield []
            return
        yield from rec(i + 1)
        for e in range(i + 1, n + 1):
            for rest in rec(e):
                yield [(i, e)] + rest
    return [r for r in rec(0) if r]


def record(tag, i):
    extra = ["", "ü€𝄞", "a\u2028b\x85c\x0cd\x1ce", '"\\n\n\r\n', "x" * 300, "0", " "][i % 7]
    return {"id": f"{tag}{i}", "x": extra, "n": i if i % 2 else None, "d": {"k": [i, {"q": "v"}]}}


# ------------------------------------------------------------------------------------------------------- JSONL ----
JSONL = ("plain", "no-last-newline", "crlf", "raw-unicode", "gz", "bz2", "xz")


def write_jsonl(path, recs, kind):
    lines = [json.dumps(r, ensure_ascii=kind != "raw-unicode") for r in recs]
    sep = "\r\n" if kind == "crlf" else "\n"
    data = sep.join(lines)
    if lines and kind != "no-last-newline":
        data += sep
    b = data.encode()
    b = {"gz": gzip.compress, "bz2": bz2.compress, "xz": lzma.compress}.get(kind, lambda x: x)(b)
    p = str(path) + ".jsonl" + (f".{kind}" if kind in ("gz", "bz2", "xz") else "")
    with open(p, "wb") as f:
        f.write(b)
    return p


# ----------------------------------------------------------------------------------------------------- parquet ----
def compositions(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield (k,) + r


def write_parquet(path, recs, groups):
    import pyarrow as pa
    import pyarrow.parquet as pq

    p = str(path) + ".parquet"
    schema = pa.schema([("id", pa.string()), ("x", pa.string()), ("n", pa.int64()), ("d", pa.struct([("k", pa.string())]))])
    rows = [dict(r, d={"k": json.dumps(r["d"])}) for r in recs]
    with pq.ParquetWriter(p, schema) as w:
        i = 0
        for g in groups:
            w.write_table(pa.Table.from_pylist(rows[i:i + g], schema=schema), row_group_size=max(g, 1))
            i += g
        assert i == len(recs)
    return p, rows


# ----------------------------------------------------------------------------------------------------- tar --------
TARS = ("txt+json", "varying", "nested", "gz-members", "other-ext", "directories", "unsorted", "descending", "npy-pkl")


def write_tar(path, tag, n, kind):
    """-> path, what each sample contains"""
    p = str(path) + ".tar"
    want = []
    with tarfile.open(p, "w", format=tarfile.USTAR_FORMAT) as t:
        def add(name, data):
            ti = tarfile.TarInfo(name)
            ti.size = len(data)
            t.addfile(ti, io.BytesIO(data))

        if kind == "directories":
            d = tarfile.TarInfo("sub.dir")
            d.type = tarfile.DIRTYPE
            t.addfile(d)
        for i in range(n):
            key = f"{tag}{i}"
            if kind in ("nested", "directories"):
                key = f"sub.dir/{key}"
            if kind == "unsorted":
                key = f"{tag}{(i * 5 + 3) % 7}"
            elif kind == "descending":
                key = f"{tag}{12 - i}"
            txt = ["", "ü€", "x" * 511, "x" * 512, "x" * 513, "l1\nl2"][i % 6]
            s = {".txt": txt}
            members = [(".txt", txt.encode())]
            if kind == "gz-members":
                members = [(".txt.gz", gzip.compress(txt.encode()))]
                s = {".txt.gz": txt}
            uneven = kind in ("varying", "unsorted", "descending")
            if kind == "npy-pkl":
                buf = io.BytesIO()
                np.save(buf, np.arange(i))
                s[".npy"] = list(range(i))
                s[".pkl"] = (i, "x")
                members = [(".pkl", pickle.dumps((i, "x"))), *members, (".npy", buf.getvalue())]
            if not uneven or i % 2:
                s[".json"] = {"i": i}
                members.append((".json", json.dumps({"i": i}).encode()))
            if uneven and i % 3 == 0:
                s[".cls"] = i
                members.insert(0, (".cls", str(i).encode()))
            if kind == "other-ext":
                s[".a.bin"] = b"\x00\x01" * i
                members.append((".a.bin", s[".a.bin"]))
            for ext, data in members:
                add(key + ext, data)
            s["__key__"] = key
            want.append(s)
    return p, want


def plain(sample):
    """decoded tar sample -> comparable"""
    return {k: (v.read() if hasattr(v, "read") else v.tolist() if hasattr(v, "tolist") else v) for k, v in sample.items()}


def jl(line):
    return json.loads(line)


def idf(x):
    return x


class Conn:
    """the client's connection whose file request is answered like by the server"""

    def __new__(cls):
        from mixtera.core.filesystem import FileSystem
        from mixtera.network.connection import ServerConnection

        c = ServerConnection("127.0.0.1", 1)

        async def fetch(path):
            return "".join(FileSystem.from_path(path).get_file_iterable(path))

        c._fetch_file = fetch
        return c


class Files:
    name = "ranges"
    cpu_limit = 300
    wall_limit = 400

    def setup(self):
        import mixtera.core.datacollection.datasets  # noqa: F401

        class P:
            def __init__(self):
                self.seen = []

            def parse(self, line_number, payload, **kw):
                self.seen.append((line_number, payload))

        self.P = P

    def cases(self, tier):
        deep = tier == "thorough"
        for kind in JSONL:
            for n in range(0, 8 if deep and kind in ("plain", "crlf") else 6):
                for remote in (False, True):
                    yield {"fmt": "jsonl", "kind": kind, "n": n, "remote": remote}
        for n in range(1, 8 if deep else 6):
            for g in compositions(n):
                yield {"fmt": "parquet", "kind": list(g), "n": n}
        for z in ([0, 2, 3], [2, 0, 3], [2, 3, 0], [0, 0, 4]):  # empty row groups
            yield {"fmt": "parquet", "kind": z, "n": sum(z)}
        for kind in TARS:
            for n in range(1, 7 if deep else 6):
                yield {"fmt": "tar", "kind": kind, "n": n}

    def write(self, case, d, tag):
        n = case["n"]
        recs = [record(tag, i) for i in range(n)]
        if case["fmt"] == "jsonl":
            return write_jsonl(os.path.join(d, tag), recs, case["kind"]), recs
        if case["fmt"] == "parquet":
            return write_parquet(os.path.join(d, tag), recs, case["kind"])
        return write_tar(os.path.join(d, tag), tag, n, case["kind"])

    def run(self, case, rec):
        from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset, WebDataset

        D = {"jsonl": JSONLDataset, "parquet": ParquetDataset, "tar": WebDataset}[case["fmt"]]
        f = jl if case["fmt"] == "jsonl" else (plain if case["fmt"] == "tar" else idf)
        conn = Conn() if case.get("remote") else None
        d = env.fresh_dir("c12")
        try:
            p1, w1 = self.write(case, d, "a")
            p2, w2 = self.write(case, d, "b")
            # registration numbers the samples 0..n-1 in the order of the file
            if not conn:
                for p, w in ((p1, w1), (p2, w2)):
                    m = self.P()
                    D.inform_metadata_parser(Path(p), m)
                    got = [(i, plain(x) if case["fmt"] == "tar" else x) for i, x in m.seen]
                    rec.trace()
                    if got != list(enumerate(w)):
                        rec.fail("numbering", f"{case}: registration sees {got}, stored {list(enumerate(w))}")
                        return
                files = sorted(map(str, D.iterate_files(d)))
                if files != sorted([p1, p2]):
                    rec.fail("files", f"{case}: directory lists {files}")
                    return
                if list(map(str, D.iterate_files(p1))) != [p1]:
                    rec.fail("files", f"{case}: file lists {list(D.iterate_files(p1))}")
                    return
            rs = ranges(case["n"])
            pairs = [(a, None) for a in rs] + [(a, b) for a, b in itertools.product(rs, rs) if len(a) + len(b) <= (5 if case["n"] <= 3 else 3)]
            if len(pairs) > 900:
                pairs = [x for x in pairs if x[1] is None or (x[0] + x[1])[0][0] <= 1]
            for a, b in pairs:
                for order in ((0, 1), (1, 0)) if b else ((0,),):
                    req = [(p1, a, w1), (p2, b, w2)]
                    req = [req[i] for i in order]
                    want = [w[i] for _, r, w in req for s, e in r for i in range(s, e)]
                    got = list(D.read_ranges_from_files({p: list(map(tuple, r)) for p, r, _ in req}, f, conn))
                    rec.trace()
                    rec.step(len(got))
                    rec.state((str(case), str(a), str(b), order))
                    if got != want:
                        rec.fail("ranges", f"{case} ranges={[r for _, r, _ in req]}: got {str(got)[:700]} stored {str(want)[:700]}")
                        return
            rec.outcome((case["fmt"], str(case["kind"]), case["n"]))
        finally:
            env.rmtree(d)


class Large:
    """files larger than the internal batches of the readers (32000 / 65536 rows)"""

    name = "large"
    cpu_limit = 300
    wall_limit = 400

    def setup(self):
        Files.setup(self)

    def cases(self, tier):
        for n, groups in ((66000, [66000]), (66000, [1000, 65000]), (66000, [33000, 33000])):
            yield {"n": n, "groups": groups}

    def run(self, case, rec):
        import pyarrow as pa
        import pyarrow.parquet as pq
        from mixtera.core.datacollection.datasets import ParquetDataset

        d = env.fresh_dir("c12")
        try:
            p = os.path.join(d, "x.parquet")
            schema = pa.schema([("i", pa.int64())])
            with pq.ParquetWriter(p, schema) as w:
                i = 0
                for g in case["groups"]:
                    w.write_table(pa.table({"i": list(range(i, i + g))}), row_group_size=g)
                    i += g
            m = self.P()
            ParquetDataset.inform_metadata_parser(Path(p), m)
            rec.trace()
            if [(i, x["i"]) for i, x in m.seen] != [(i, i) for i in range(case["n"])]:
                rec.fail("numbering", f"{case}: registration numbers samples differently")
                return
            cuts = sorted({0, 999, 1000, 1001, 31999, 32000, 32001, 32999, 33000, 33001, 64000, 65535, 65536, 65537, case["n"]})
            for a in range(len(cuts)):
                for b in range(a + 1, len(cuts)):
                    if cuts[b] - cuts[a] > 34000 and not (a == 0 and b == len(cuts) - 1):
                        continue
                    r = [(cuts[a], cuts[b])]
                    if b + 1 < len(cuts):
                        r.append((cuts[b] + 1, min(cuts[b] + 3, case["n"])) if cuts[b] + 1 < case["n"] else (cuts[b], case["n"]))
                    want = [x for s, e in r for x in range(s, e)]
                    got = [x["i"] for x in ParquetDataset.read_ranges_from_files({p: r}, idf, None)]
                    rec.trace()
                    rec.step(len(got))
                    rec.state((str(case), str(r)))
                    if got != want:
                        k = next((i for i, (x, y) in enumerate(itertools.zip_longest(got, want)) if x != y), None)
                        rec.fail("ranges", f"{case} ranges={r}: {len(got)} samples, first difference at {k}")
                        return
            rec.outcome(str(case))
        finally:
            env.rmtree(d)


HARNESSES = [Files(), Large()]
