"""C02: every chunk honours the mixture."""
import itertools
import os

from c01 import build, drain, make_mixture, matches, mixtures
from mc import space, world
from mc.world import canon, flatc

LEVEL = "model_checking"
TECHNIQUE = "bounded exhaustive enumeration of data layouts x mixtures on the real chunk generator, stepwise comparison with a counting reference model"
RULE = ("a case = layout of samples over files/domains (all strings up to the bound) x every integer mixture over up to 3 domains, strict and best effort, "
        "single/multi-valued/partial keys; every chunk of the drained result is compared with a reference model that tracks remaining samples per domain; "
        "states = (mixture, remaining samples per domain), transitions = chunks")
ASSUMPTIONS = ["native chunk-index stand-in (checked by C27)"]


def domain_of(members):
    return {s: c for c, m in members.items() for s in m}


class Fidelity:
    name = "fidelity"

    def setup(self):
        self.w = world.world()

    def cases(self, tier):
        deep = tier == "thorough"
        for alpha, letters, ns in (
            ("single", "AB", range(1, 9 if deep else 7)),
            ("single", "ABC", range(2, 8 if deep else 6)),
            ("multi", "ABC", range(1, 6 if deep else 5)),
            ("two", "ABC", range(1, 6 if deep else 5)),
        ):
            for n in ns:
                for lay in space.layouts(n, letters, 2, canonical=False):
                    # the split over files matters little here: two cuts are enough for larger n
                    if n >= 4 and len(lay[0]) not in (n // 2, n):
                        continue
                    yield {"alpha": alpha, "layout": lay, "letters": letters}
        # sizes only (counts matter): all count vectors, larger chunks
        hi = 10 if deep else 8
        for a in range(0, hi):
            for b in range(0, hi):
                for c in range(0, 5):
                    if a + b + c:
                        yield {"alpha": "single", "layout": ["A" * a + "B" * b, "C" * c], "letters": "ABC", "big": True}

    def mixtures(self, case):
        if not case.get("big"):
            yield from mixtures(case["alpha"], case["letters"], os.environ.get("VERIF_TIER"))
            return
        K = {c: space.ALPHABETS["single"][c] for c in "ABC"}
        for strict in (True, False):
            for counts in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 3), (3, 2, 1), (5, 1, 1), (2, 2, 2), (4, 3, 2), (1, 0, 2), (0, 1, 2), (2, 1, 0)):
                yield {"kind": "static", "keys": [K["A"], K["B"], K["C"]], "counts": list(counts), "strict": strict}
            yield {"kind": "inferring", "size": 7, "strict": strict}
            yield {"kind": "inferring", "size": 3, "strict": strict}

    def run(self, case, rec):
        table, selected, members = build(self.w, case["layout"], case["alpha"])
        for m in self.mixtures(case):
            if m["kind"] != "arbitrary":
                self.one(case, table, members, m, rec)

    def one(self, case, table, members, m, rec):
        from mixtera.core.query.query_result import QueryResult

        mix = make_mixture(m)
        qr = QueryResult(self.w.cmdc, table, mix)
        where = f"layout={case['layout']} alphabet={case['alpha']} mixture={m}: "
        target = {canon(k): v for k, v in mix.mixture_in_rows().items()}
        size = m["size"] if "size" in m else sum(m["counts"])
        if m["kind"] == "static":
            want = {canon(space.as_key(k)): c for k, c in zip(m["keys"], m["counts"])}
            if target != want:
                rec.fail("counts", where + f"mixture counts {target}, expected {want}")
                return
        chunks, ended = drain(qr, rec)
        rec.trace()
        if not ended:
            rec.fail("endless", where)
            return
        dom = domain_of(members)
        props = space.ALPHABETS[case["alpha"]]
        keyprops = {}
        if m["kind"] == "static":
            for k in m["keys"]:
                keyprops[canon(space.as_key(k))] = k
        else:
            for c in members:
                keyprops[canon(space.as_key(props[c]))] = props[c]
        feeds = {k: [c for c in members if matches(kp, props[c])] for k, kp in keyprops.items()}
        disjoint = all(not set(feeds[a]) & set(feeds[b]) for a, b in itertools.combinations(feeds, 2))
        remaining = {k: sum(len(members[c]) for c in f) for k, f in feeds.items()}
        got_total = 0
        for i, c in enumerate(chunks):
            idx = flatc(c._result_index)
            counts = {k: len(v) for k, v in idx.items()}
            rec.state((str(m), tuple(sorted(remaining.items()))))
            rec.outcome(tuple(sorted(counts.items())))
            for k, v in idx.items():
                if k not in feeds:
                    rec.fail("foreign-domain", where + f"chunk {i} has domain {k} that is not in the mixture")
                    return
                for d, f, s in v:
                    if dom[(f, s)] not in feeds[k]:
                        rec.fail("wrong-domain", where + f"chunk {i} lists sample {(d, f, s)} of domain {dom[(f, s)]} under {k}")
                        return
            reported = {canon(k): v for k, v in (c._mixture or {}).items() if v}
            nonzero = {k: v for k, v in counts.items() if v}
            if reported != nonzero:
                rec.fail("reported", where + f"chunk {i} reports mixture {reported} but contains {nonzero}")
                return
            if sum(counts.values()) != size:
                rec.fail("size", where + f"chunk {i} has {sum(counts.values())} samples instead of {size}: {counts}")
                return
            if m["strict"]:
                if nonzero != {k: v for k, v in target.items() if v}:
                    rec.fail("strict", where + f"chunk {i} contains {counts}, the mixture asks for {target}")
                    return
            elif disjoint:
                if not self.best_effort(where, i, target, remaining, counts, size, rec):
                    return
            for k in counts:
                remaining[k] -= counts[k]
        # the end
        if not disjoint:
            if m["strict"] and len(feeds) == 1:
                (k,) = feeds
                if remaining[k] >= target[k]:
                    rec.fail("early-end", where + f"stopped although {remaining} samples remain for {target}")
            return
        if m["strict"]:
            if target and all(remaining.get(k, 0) >= v for k, v in target.items()):
                rec.fail("early-end", where + f"stopped although {remaining} samples remain for {target}")
        elif sum(remaining.values()) >= size:
            rec.fail("early-end", where + f"best effort stopped although {remaining} samples remain, chunk size {size}")

    def best_effort(self, where, i, target, remaining, counts, size, rec):
        for k, t in target.items():
            c = counts.get(k, 0)
            if c < min(t, remaining.get(k, 0)):
                rec.fail("best-effort-short", where + f"chunk {i}: only {c} of {k}, mixture {target}, remaining before {remaining}")
                return False
            if c > remaining.get(k, 0):
                rec.fail("best-effort-over", where + f"chunk {i}: {c} of {k}, remaining before {remaining}")
                return False
        # a domain that is short for its target is used up completely
        short = [k for k, t in target.items() if remaining.get(k, 0) < t]
        if not short and {k: v for k, v in counts.items() if v} != {k: v for k, v in target.items() if v}:
            rec.fail("best-effort-deviates", where + f"chunk {i} has {counts} although the mixture {target} could be met from {remaining}")
            return False
        # survivors share what is missing in proportion to their weights
        surv = [k for k in target if counts.get(k, 0) < remaining.get(k, 0) and k not in short]
        done = [k for k in target if k not in surv]
        if len(surv) >= 2 and len(done) >= 1:
            T = sum(target[k] for k in surv)
            S = sum(counts.get(k, 0) for k in surv)
            if T > 0:
                # every domain that runs dry causes one redistribution, each rounded to whole samples
                tol = 1 if len(done) == 1 else 2
                for k in surv:
                    if abs(counts.get(k, 0) - target[k] * S / T) >= tol + 1e-9:
                        rec.fail("best-effort-ratio", where + f"chunk {i}: {counts} from {remaining}, target {target}: missing samples not shared in proportion")
                        return False
        return True


class Distribute:
    """distribute_by_ratio, the redistribution arithmetic: exact against rational largest-remainder bounds"""

    name = "distribute-by-ratio"

    def cases(self, tier):
        hi = 13 if tier == "thorough" else 9
        for k in (1, 2, 3, 4):
            for w in itertools.product(range(0, 6 if k < 4 else 4), repeat=k):
                if sum(w):
                    yield {"w": list(w), "hi": hi}

    def run(self, case, rec):
        from mixtera.utils.utils import distribute_by_ratio

        w = case["w"]
        tot = sum(w)
        for n in range(0, case["hi"] * 3):
            out = distribute_by_ratio(n, [x / tot for x in w])
            rec.trace()
            rec.step()
            rec.outcome((n, tuple(out)))
            rec.state((n, tuple(w)))
            if sum(out) != n or any(x < 0 for x in out) or len(out) != len(w):
                rec.fail("distribute", f"distribute_by_ratio({n}, {w}/{tot}) = {out}")
                return
            for x, ww in zip(out, w):
                if abs(x * tot - n * ww) >= tot:
                    rec.fail("distribute-ratio", f"distribute_by_ratio({n}, {w}/{tot}) = {out}: off by a sample or more")
                    return


HARNESSES = [Fidelity(), Distribute()]
