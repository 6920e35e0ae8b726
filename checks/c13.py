"""C13: streaming a chunk yields each of its samples exactly once in mixture proportion."""
import itertools

from mc import env, jobs, space, world
from mc.world import canon

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of chunk contents x window sizes x strictness x resume positions on the real chunk iterator, against a counting specification"
RULE = ("a case = chunk contents (domain sizes, or the spread of domains over datasets, files and ranges); within it all streaming modes x window sizes 1..total+1 x best effort/strict x nominal chunk sizes, and for each stream all resume positions and restarts after every partial "
        "read; states = distinct (contents, mode, window), transitions = samples streamed, traces = streams compared")
ASSUMPTIONS = ["a chunk's mixture lists exactly the samples it contains (property C02)",
               "strict windows end with the window in which a domain ran out; a window may deviate from the exact share by less than the number of domains"]


class Mem:
    """A dataset whose samples are spelled by (file, position); the interface of the real data set classes"""

    @staticmethod
    def read_ranges_from_files(ranges_per_file, parsing_func, server_connection):
        for f, ranges in ranges_per_file.items():
            for s, e in ranges:
                for i in range(s, e):
                    yield parsing_func(f"{f}:{i}")


def ident(x):
    return x


LETTERS = "ABCD"


def key(letter, alphabet="single"):
    from mixtera.core.query.mixture import MixtureKey

    if alphabet == "multi":
        return MixtureKey({"l": {"A": ["a"], "B": ["b", "c"], "C": ["d"], "D": ["e"]}[letter], "t": ["x"]})
    return MixtureKey({"l": [letter.lower()]})


def build(index, sizes, chunk_size, mixture, ids=None, strict=True, alphabet="single", files=None, dstype=None, parse=None):
    from mixtera.core.query.result_chunk import ResultChunk

    dids = {d for ds in index.values() for d in ds}
    fids = {f for ds in index.values() for fs in ds.values() for f in fs}
    keys = list(index)
    ids = ids or {k: 3 * i + 1 for i, k in enumerate(keys)}
    return ResultChunk(index, {d: dstype or Mem for d in dids}, {f: (files[f] if files else f"f{f}") for f in fids},
                       {d: parse or ident for d in dids}, chunk_size, ids, 0, mixture=mixture, strict_mixture=strict)


def conf(chunk, mode, window, best, prefetch=False):
    from mixtera.core.client.mixtera_client import ResultStreamingArgs

    chunk.configure_result_streaming(None, ResultStreamingArgs(
        job_id="j", chunk_reading_mixture_type=mode, chunk_reading_window_size=window,
        chunk_reading_window_best_effort=best, chunk_reading_prefetch_first_sample=prefetch))
    return chunk


def take(it, n):
    """at most n items"""
    return list(itertools.islice(it, n))


def check_stream(rec, out, members, ids, mode, window, best, tag, simple_order=None):
    """members: letter -> multiset of texts in the chunk; ids: letter -> domain id"""
    total = sum(map(len, members.values()))
    rec.step(len(out))
    rec.trace()
    if [p for p, _, _ in out] != list(range(len(out))):
        rec.fail(mode + "-positions", f"{tag}: positions {[p for p, _, _ in out]}")
        return None
    by = {i: l for l, i in ids.items()}
    seq = {l: [] for l in members}
    for _, i, s in out:
        if i not in by:
            rec.fail(mode + "-domain-id", f"{tag}: unknown domain id {i}")
            return None
        seq[by[i]].append(s)
    for l in members:
        extra = [s for s in seq[l] if s not in members[l]]
        if extra or len(set(seq[l])) != len(seq[l]):
            rec.fail(mode + "-wrong-samples", f"{tag}: domain {l} streamed {seq[l]}, contains {members[l]}")
            return None
        if simple_order is not None and seq[l] != simple_order[l][:len(seq[l])]:
            rec.fail(mode + "-order", f"{tag}: domain {l} streamed {seq[l]}, in the simple mode {simple_order[l]}")
            return None
    if (mode == "simple" or best) and len(out) != total:
        rec.fail(mode + "-lost", f"{tag}: {len(out)} of {total} samples streamed: { {l: (len(seq[l]), len(members[l])) for l in members} }")
        return None
    if mode == "window":
        K = len(members)
        w = min(window, total)
        left = {l: len(v) for l, v in members.items()}
        first = None
        done = None
        pos = 0
        while pos < len(out):
            win = out[pos:pos + w]
            pos += w
            c = {l: sum(1 for _, i, _ in win if i == ids[l]) for l in members}
            if done:
                if not best:
                    rec.fail("window-strict-continues", f"{tag}: a strict windowed stream continues after domain {done} ran out: {c}")
                    return None
                break
            if len(win) == w and all(left[l] >= c[l] for l in members):
                ok = all(abs(c[l] * total - w * len(members[l])) < K * total for l in members)
                ref = first if first is not None else c
                short = [l for l in members if ref[l] > left[l]]
                if not short and not ok:
                    rec.fail("window-proportion", f"{tag}: a complete window (size {w}) contains {c}, the chunk { {l: len(v) for l, v in members.items()} }")
                    return None
                if not short and c != ref:
                    rec.fail("window-proportion-changes", f"{tag}: a window contains {c}, an earlier one {ref}, left {left}")
                    return None
                if first is None and ok:
                    first = c
                if short:
                    done = short
            else:
                ref = first
                done = [l for l in members if ref is None or ref[l] > left[l]] or ["?"]
                if ref is not None and not best and any(c[l] > ref[l] for l in members):
                    rec.fail("window-proportion-last", f"{tag}: the last window contains {c}, complete ones {ref}")
                    return None
            for l in members:
                left[l] -= c[l]
        if not best and out and first is not None:
            # it may only stop once a window cannot be completed
            if all(left[l] >= first[l] for l in members) and any(left.values()):
                rec.fail("window-strict-stops-early", f"{tag}: stream ended with {left} left although windows need {first}")
                return None
        if not best and total and not out:
            rec.fail("window-strict-empty", f"{tag}: nothing streamed")
            return None
    return seq


class Sizes:
    """domain sizes x window sizes x strictness x nominal chunk sizes"""

    name = "sizes"
    cpu_limit = 40

    def cases(self, tier):
        top = 7 if tier == "quick" else 9
        for k in (1, 2, 3):
            for sizes in itertools.product(range(1, top + 1 if k < 3 else top - 1), repeat=k):
                yield {"sizes": list(sizes)}
        for sizes in itertools.product(range(1, 3 if tier == "quick" else 4), repeat=4):
            yield {"sizes": list(sizes)}

    def run(self, case, rec):
        sizes = case["sizes"]
        total = sum(sizes)
        ls = LETTERS[:len(sizes)]
        members = {l: [f"f{j}:{i}" for i in range(n)] for j, (l, n) in enumerate(zip(ls, sizes))}

        def mk(chunk_size, with_mixture, zero=False):
            idx = {key(l): {0: {j: [(0, n)]}} for j, (l, n) in enumerate(zip(ls, sizes))}
            mix = {key(l): n for l, n in zip(ls, sizes)} if with_mixture else None
            ids = {key(l): 2 * j + 1 for j, l in enumerate(ls)}
            if zero:
                mix[key("D", "multi")] = 0
            return build(idx, sizes, chunk_size, mix, ids)

        ids = {l: 2 * j + 1 for j, l in enumerate(ls)}
        simple = None
        for cs, withm, zero in ((total, True, False), (total, False, False), (total + 3, True, False), (10 * total + 1, True, False), (total, True, True)):
            for mode, window, best in [("simple", 128, True)] + [("window", w, b) for w in range(1, total + 2) for b in (True, False)]:
                rec.state((tuple(sizes), cs, withm, zero, mode, window, best))
                tag = f"sizes {sizes}, chunk size {cs}, mixture {'given' if withm else 'none'}{' with an empty domain' if zero else ''}, {mode} {window} {'best effort' if best else 'strict'}"
                c = conf(mk(cs, withm, zero), mode, window, best)
                out = take(iter(c), total + 2)
                seq = check_stream(rec, out, members, ids, mode, min(window, cs), best, tag, simple)
                if seq is None:
                    continue
                if mode == "simple" and simple is None:
                    simple = seq
                if cs == total and withm and not zero and (mode == "simple" or window in (1, 2, 3, total)):
                    for n in range(len(out) + 1):
                        c = conf(mk(cs, withm), mode, window, best)
                        c._samples_to_skip = n
                        got = take(iter(c), total + 2)
                        rec.step(len(got))
                        if got != out[n:]:
                            rec.fail(mode + "-resume", f"{tag}: resuming at {n} gives {got}, the full stream continues {out[n:]}")
                            break
                    for n in range(1, len(out)):
                        it = iter(c)
                        c._samples_to_skip = 0
                        take(it, n)
                        if take(iter(c), total + 2) != out:
                            rec.fail(mode + "-restart", f"{tag}: iterating again after {n} samples gives a different stream")
                            break


class Precise:
    """two domains, larger chunks: exact proportions need exact arithmetic"""

    name = "precise"
    cpu_limit = 60

    def cases(self, tier):
        top = 60 if tier == "quick" else 130
        for total in range(2, top + 1):
            yield {"total": total}

    def run(self, case, rec):
        total = case["total"]
        for a in range(1, total):
            sizes = (a, total - a)
            members = {l: [f"f{j}:{i}" for i in range(n)] for j, (l, n) in enumerate(zip("AB", sizes))}
            for w in {total} | {d for d in range(2, total) if total % d == 0 and a % (total // d) == 0}:
                rec.state((sizes, w))
                idx = {key(l): {0: {j: [(0, n)]}} for j, (l, n) in enumerate(zip("AB", sizes))}
                c = conf(build(idx, sizes, total, {key(l): n for l, n in zip("AB", sizes)}), "window", w, False)
                out = take(iter(c), total + 2)
                rec.step(len(out))
                rec.trace()
                want = a * w // total  # exact
                for p in range(0, total, w):
                    got = sum(1 for _, i, _ in out[p:p + w] if i == 1)
                    if got != want or len(out[p:p + w]) != w:
                        rec.fail("window-exact", f"sizes {sizes}, window {w}: window at {p} has {got} of {want} samples of the first domain, {len(out[p:p + w])} in total")
                        return


class Layouts:
    """spread of the samples over datasets, files and ranges, with the real JSONL reader and key shapes"""

    name = "layouts"
    cpu_limit = 40

    def cases(self, tier):
        n = 4 if tier == "quick" else 5
        for k in range(1, n + 1):
            for lay in space.layouts(k, "AB." if k == n else "ABC.", 3 if k < n else 2):
                yield {"layout": lay, "alphabet": "single" if k % 2 else "multi"}

    def run(self, case, rec):
        from mixtera.core.datacollection.datasets import JSONLDataset

        w = world.world()
        members, index = {}, {}
        order = [w.files[0], w.files[2], w.files[3]]
        for (did, fid, loc), s in zip(order, case["layout"]):
            for i, ch in enumerate(s):
                if ch == ".":
                    continue
                members.setdefault(ch, []).append(w.text[fid][i])
                iv = index.setdefault(ch, {}).setdefault(did, {}).setdefault(fid, [])
                if iv and iv[-1][1] == i and s[i - 1] == ch and (i % 3):
                    iv[-1] = (iv[-1][0], i + 1)
                else:
                    iv.append((i, i + 1))
        if not members:
            return
        total = sum(map(len, members.values()))
        paths = {f: loc for _, f, loc in w.files}
        ids = {l: 5 - j for j, l in enumerate(members)}

        def mk():
            return build({key(l, case["alphabet"]): index[l] for l in members}, None, total,
                         {key(l, case["alphabet"]): len(v) for l, v in members.items()},
                         {key(l, case["alphabet"]): i for l, i in ids.items()},
                         files=paths, dstype=JSONLDataset, parse=world._text)

        simple = None
        for mode, window, best in [("simple", 1, True)] + [("window", x, b) for x in range(1, total + 1) for b in (True, False)]:
            rec.state((tuple(case["layout"]), mode, window, best))
            tag = f"layout {case['layout']}, {mode} {window} {'best effort' if best else 'strict'}"
            out = take(iter(conf(mk(), mode, window, best)), total + 2)
            seq = check_stream(rec, out, members, ids, mode, window, best, tag, simple)
            if seq is None:
                return
            if simple is None:
                simple = seq
                # within one file the order of the file is kept
                for l, texts in seq.items():
                    for f in {t.split("s")[0] for t in texts}:
                        of = [t for t in texts if t.startswith(f + "s")]
                        if of != [t for t in members[l] if t in of]:
                            rec.fail("simple-file-order", f"{tag}: {of}")
            for n in range(len(out) + 1):
                c = conf(mk(), mode, window, best)
                c._samples_to_skip = n
                got = take(iter(c), total + 2)
                if got != out[n:]:
                    rec.fail(mode + "-resume", f"{tag}: resuming at {n} gives {got} instead of {out[n:]}")
                    break


HARNESSES = [Sizes(), Precise(), Layouts()]


def prepare(tier):
    env.boot()
