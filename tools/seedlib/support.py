"""Helpers for the demonstrations: stand-in for the native chunk index (not built here), small data sets, jobs."""
import json
import os
import shutil
import sys
import tempfile
import types
import atexit

sys.path.insert(0, os.getcwd())  # /repo
os.environ.setdefault("PYTEST_CURRENT_TEST", "demo")  # the repository uses one thread / no process pool in tests
NAME = "mixtera.core.query.chunker.chunker_extension"
META = ("dataset_id", "file_id", "group_id", "interval_start", "interval_end")


def create_chunker_index_cpp(table, num_threads=1):
    from mixtera.core.query.mixture.mixture_key import MixtureKey

    grouped = {}
    for r in table.to_pylist():
        props = {}
        for n, v in r.items():
            if n in META or v is None:
                continue
            props[n] = sorted({str(x) for x in v if x is not None}) if isinstance(v, (list, tuple)) else [str(v)]
        k = json.dumps(props, sort_keys=True)
        e = grouped.setdefault(k, (props, {}))
        e[1].setdefault(r["dataset_id"], {}).setdefault(r["file_id"], []).append((r["interval_start"], r["interval_end"]))
    return {MixtureKey(p): {d: {f: sorted(iv) for f, iv in fs.items()} for d, fs in ds.items()} for p, ds in grouped.values()}


def install():
    m = types.ModuleType(NAME)
    m.create_chunker_index_cpp = create_chunker_index_cpp
    sys.modules[NAME] = m


install()
from loguru import logger  # noqa: E402

logger.remove()
SCRATCH = tempfile.mkdtemp(prefix="demo_")
_owner = os.getpid()


@atexit.register
def _clean():
    if os.getpid() == _owner:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def scratch(name):
    from pathlib import Path

    p = Path(SCRATCH) / name
    p.mkdir(parents=True, exist_ok=True)
    return p


def check(cond, what):
    if not cond:
        print("BROKEN:", what)
        sys.stdout.flush()
        _clean()
        os._exit(1)
    print("ok:", what[:100])


def text_of(line):
    import json as j

    return j.loads(line)["text"]


def parser():
    from mixtera.core.datacollection.index.parser import MetadataParser, MetadataProperty

    class P(MetadataParser):
        @classmethod
        def get_properties(cls):
            return [MetadataProperty(name="lang", dtype="STRING", multiple=False, nullable=True),
                    MetadataProperty(name="topics", dtype="STRING", multiple=True, nullable=True)]

        def parse(self, line_number, payload, **kwargs):
            self.add_metadata(sample_id=line_number, lang=payload.get("lang"), topics=payload.get("topics"))

    return P


def client(name, datasets):
    """datasets: {dataset: {file: [(lang, text) or (lang, text, topics)]}} -> local client with everything registered"""
    from mixtera.core.client import MixteraClient
    from mixtera.core.datacollection.datasets import JSONLDataset

    c = MixteraClient.from_directory(scratch(name + "/server"))
    c.register_metadata_parser("P", parser())
    for d, files in datasets.items():
        p = scratch(f"{name}/{d}")
        for f, rows in files.items():
            with open(p / f, "w", encoding="utf-8") as fp:
                for row in rows:
                    fp.write(json.dumps({"lang": row[0], "text": row[1], "topics": row[2] if len(row) > 2 else None}) + "\n")
        check(c.register_dataset(d, str(p), JSONLDataset, text_of, "P"), f"register {d}")
    return c


def run(c, job, mixture, query=None, **kw):
    """execute and return the streaming args"""
    from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs
    from mixtera.core.query import Query

    q = query if query is not None else Query.for_job(job).select(None)
    check(c.execute_query(q, QueryExecutionArgs(mixture=mixture, **kw)), f"execute {job}")
    return ResultStreamingArgs(job_id=job, chunk_reading_prefetch_first_sample=False)


def chunks(c, job, worker=0, group=0, node=0):
    return list(c._stream_result_chunks(job, group, node, worker))


def domains(chunk):
    """{(sorted properties): {(dataset, file): [sample ids]}}"""
    out = {}
    for k, ds in chunk._result_index.items():
        kk = tuple(sorted((p, tuple(sorted(map(str, v)))) for p, v in k.properties.items()))
        for d, fs in ds.items():
            for f, ivs in fs.items():
                for a, b in ivs:
                    out.setdefault(kk, {}).setdefault((d, f), []).extend(range(a, b))
    return out


def size(chunk):
    return sum(len(s) for fs in domains(chunk).values() for s in fs.values())
