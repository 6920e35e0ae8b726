"""Jobs on the real LocalStub over prepared interval tables: queries, mixtures of every kind, feedback, streaming."""
import os
from pathlib import Path

import dill
import numpy as np

from mc import env, space, world
from mc.world import canon, flatc


class TableQuery:
    """A query whose result table is prepared; everything else is the real thing."""

    def __init__(self, w, job_id, table, text):
        self.w, self.job_id, self.table, self.text = w, job_id, table, text
        self.results = None

    def execute(self, mdc, mixture, mixture_log=None):
        from mixtera.core.query.query_result import QueryResult

        self.results = QueryResult(self.w.cmdc, self.table, mixture, mixture_log)

    def get_id(self):
        return self.job_id

    def __str__(self):
        return self.text


class InlineProcess:
    """multiprocessing.Process that runs to its end inside start(); the child works on copies, like after fork"""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.t, self.a, self.k = target, args, kwargs or {}
        self.daemon = daemon
        self._exit = None
        self.pid = 4242

    def start(self):
        import copy

        a, k = copy.deepcopy(self.a), copy.deepcopy(self.k)
        try:
            self.t(*a, **k)
            self._exit = 0
        except Exception:  # noqa: BLE001
            if os.environ.get('VERIF_DEBUG'):
                import traceback

                traceback.print_exc()
            self._exit = 1

    def join(self, timeout=None):
        pass

    def is_alive(self):
        return False

    @property
    def exitcode(self):
        return self._exit

    def terminate(self):
        pass

    kill = close = terminate


class inline_processes:
    def __init__(self, cls=InlineProcess):
        self.cls = cls

    def __enter__(self):
        import multiprocessing as mp

        self.saved = (mp.Process, mp.get_context)
        mp.Process = self.cls
        return self

    def __exit__(self, *a):
        import multiprocessing as mp

        mp.Process, mp.get_context = self.saved


_ALG = []


def alg_class():
    """a deterministic dynamic algorithm: weights proportional to the accumulated losses"""
    if not _ALG:
        from mixtera.core.algo.dynamic_mixing.dynamic_mixing import DynamicMixingAlgorithm

        class LossProp(DynamicMixingAlgorithm):
            def calc_mixture(self, updated_at_client):
                s = float(self.losses.sum())
                if s <= 0:
                    return None
                return (self.losses / self.losses.sum()).astype(np.float32)

        LossProp.__module__ = __name__
        LossProp.__qualname__ = "LossProp"
        globals()["LossProp"] = LossProp
        _ALG.append(LossProp)
    return _ALG[0]


def mixture(m):
    """json description -> mixture"""
    from mixtera.core.query.mixture import ArbitraryMixture, InferringMixture, MixtureSchedule
    from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
    from mixtera.core.query.mixture.mixture_schedule import ScheduleEntry

    k = m["kind"]
    if k == "arbitrary":
        return ArbitraryMixture(m["size"])
    if k == "inferring":
        return InferringMixture(m["size"], strict=m.get("strict", True))
    if k == "static":
        return space.static([(space.as_key(a), c) for a, c in zip(m["keys"], m["counts"])], m["strict"])
    if k == "schedule":
        return MixtureSchedule(m["size"], [ScheduleEntry(s, mixture(x)) for s, x in m["entries"]])
    if k == "dynamic":
        return DynamicMixture(m["size"], mixture(m["initial"]), alg_class()(), strict=m.get("strict", True))
    if k == "hierarchical":
        from mixtera.core.query.mixture.hierarchical_static_mixture import Component, HierarchicalStaticMixture, MixtureNode  # noqa

        raise NotImplementedError
    raise ValueError(k)


def feedback(step, losses=None, counts=None, mixture_id=-1):
    from mixtera.network.client.client_feedback import ClientFeedback

    return ClientFeedback(
        training_steps=step, mixture_id=mixture_id,
        losses=None if losses is None else np.array(losses, dtype=np.float32),
        counts=None if counts is None else np.array(counts, dtype=np.int64))


def stub(directory=None):
    from mixtera.core.client.local.local_stub import LocalStub

    return LocalStub(Path(directory or env.fresh_dir("stub")))


def load(raw):
    return dill.loads(raw) if isinstance(raw, (bytes, bytearray)) else raw


def describe(chunk, skip_streaming=False):
    """everything a worker observes of a chunk"""
    return {
        "domains": tuple(sorted((k, tuple(v)) for k, v in flatc(chunk._result_index).items())),
        "mixture_id": chunk.mixture_id,
        "stream": None if skip_streaming else tuple(stream(chunk)),
        "mixture": tuple(sorted((canon(k), v) for k, v in (chunk._mixture or {}).items())),
    }


def stream(chunk, **kw):
    """(position, domain id, text) of every sample a reader gets"""
    from mixtera.core.client.mixtera_client import ResultStreamingArgs

    kw.setdefault("chunk_reading_prefetch_first_sample", False)
    kw.setdefault("chunk_reading_mixture_type", "simple")
    chunk.configure_result_streaming(None, ResultStreamingArgs(job_id="j", **kw))
    return list(chunk)
