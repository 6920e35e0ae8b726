"""Python stand-in for mixtera.core.query.chunker.chunker_extension (the native module is not built here).

It follows the documented contract of the native function: rows of the interval table are grouped by their non-null
property values -> dataset -> file -> ascending list of (start, end).  Property C27 compares the real C++ code,
compiled from /repo, with `spec_index`.  The enumeration order of the native (hash-)map is unspecified: `ORDER` picks
one, so that harnesses can enumerate orders.
"""
import random
import sys
import types

NAME = "mixtera.core.query.chunker.chunker_extension"
META = ("dataset_id", "file_id", "group_id", "interval_start", "interval_end")

# "given": first-appearance order, "reversed", an int selecting a permutation seed, a permutation, or one of these per
# level in a dict {"domains": .., "datasets": .., "files": ..}
ORDER = ["given"]


def spec_rows(table):
    """[(properties as dict of lists, dataset, file, start, end)] in row order"""
    names = [n for n in table.schema.names if n not in META]
    rows = []
    for r in table.to_pylist():
        props = {}
        for n in names:
            v = r[n]
            if v is None:
                continue
            props[n] = [x for x in v if x is not None] if isinstance(v, (list, tuple)) else [v]
        rows.append((props, r["dataset_id"], r["file_id"], r["interval_start"], r["interval_end"]))
    return rows


def spec_index(table):
    """frozen key -> dataset -> file -> sorted [(start, end)]; neither order nor repetitions of values make another key"""
    out = {}
    for props, d, f, s, e in spec_rows(table):
        k = tuple(sorted((n, tuple(sorted(set(map(str, v))))) for n, v in props.items()))
        out.setdefault(k, {}).setdefault(d, {}).setdefault(f, []).append((s, e))
    for ds in out.values():
        for fs in ds.values():
            for f in fs:
                fs[f].sort()
    return out


def _reorder(items, level):
    order = ORDER[0]
    if isinstance(order, dict):
        order = order.get(level, "given")
    items = list(items)
    if order == "reversed":
        items.reverse()
    elif isinstance(order, int):
        random.Random(order).shuffle(items)
    elif isinstance(order, (list, tuple)):
        items = [items[i] for i in order if i < len(items)] + items[len(order):]
    return items


def create_chunker_index_cpp(table, num_threads=1):
    from mixtera.core.query.mixture.mixture_key import MixtureKey

    grouped = {}
    for props, d, f, s, e in spec_rows(table):
        k = tuple(sorted((n, tuple(sorted(set(map(str, v))))) for n, v in props.items()))
        entry = grouped.setdefault(k, ({n: sorted(set(map(str, v))) for n, v in props.items()}, {}))
        entry[1].setdefault(d, {}).setdefault(f, []).append((s, e))
    index = {}
    for _, (props, ds) in _reorder(grouped.items(), "domains"):
        key = MixtureKey(props)
        index[key] = {d: {f: sorted(iv) for f, iv in _reorder(fs.items(), "files")} for d, fs in _reorder(ds.items(), "datasets")}
    return index


def install():
    if NAME in sys.modules:
        return
    m = types.ModuleType(NAME)
    m.create_chunker_index_cpp = create_chunker_index_cpp
    m.__file__ = __file__
    sys.modules[NAME] = m
