"""C20: mixture weights are turned into sample counts without loss."""
import itertools
from fractions import Fraction as Q

from mc import env

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of weight vectors, hierarchies, domain sizes, chunk sizes and listing orders on the real mixture classes, against exact rational arithmetic"
RULE = ("a case = a way to write a mixture (flat, hierarchical, inferred from the data, wrapped in a schedule or dynamic mixture) and a block of weights; within it all weight vectors on the grid x chunk sizes x orders in which the domains are listed; "
        "states = distinct (weights, chunk size), transitions = mixtures constructed, traces = listing orders compared with exact arithmetic")
ASSUMPTIONS = ["weights whose sum is within 0.1 % of one count as valid and are scaled to one; whether sums at that very limit are accepted is not constrained",
               "domains with exactly equal fractional shares are a tie, which may be broken in any way"]


def prepare(tier):
    env.boot()


def K(*values, prop="l", **more):
    from mixtera.core.query.mixture import MixtureKey

    return MixtureKey({prop: list(values), **{k: list(v) for k, v in more.items()}})


def ident(key):
    return tuple(sorted((k, tuple(sorted(map(str, v)))) for k, v in key.properties.items()))


def judge(counts, shares, chunk, levels=1):
    """counts, shares: domain -> int / Fraction (summing to 1); None if fine"""
    if set(counts) != set(shares):
        return f"domains {sorted(counts)} instead of {sorted(shares)}"
    for d, n in counts.items():
        if type(n) is not int and not hasattr(n, "item"):
            return f"count {n!r} of {d} is no integer"
        if n < 0:
            return f"negative count {n} for {d}"
        if n and not shares[d]:
            return f"{n} samples for {d}, which has weight 0"
        if abs(n - chunk * shares[d]) >= levels:
            return f"{n} samples for {d} whose exact share is {float(chunk * shares[d]):.6f}"
    if sum(counts.values()) != chunk:
        return f"counts add up to {sum(counts.values())}"
    return None


def same_up_to_ties(a, b, shares, chunk):
    frac = {(chunk * shares[d]) % 1 for d in shares if a[d] != b[d]}
    return len(frac) <= 1


def read(m):
    rows = m.mixture_in_rows()
    out = {}
    for k, v in rows.items():
        if ident(k) in out:
            raise AssertionError(f"domain {ident(k)} listed twice")
        out[ident(k)] = v
    return out


def rejected(make, *allowed):
    """True if construction refuses, and nothing else than a refusal of the values happens"""
    try:
        make()
    except (ValueError, AssertionError):
        return True
    return False


def compositions(total, parts):
    if parts == 1:
        yield (total,)
        return
    for i in range(total + 1):
        for rest in compositions(total - i, parts - 1):
            yield (i,) + rest


class Flat:
    """StaticMixture over 1-4 domains, all orders"""

    name = "flat"

    def cases(self, tier):
        top = 17 if tier == "quick" else 64
        for k in (1, 2, 3, 4):
            for n in {1: (1,), 2: (2, 3, 7, 10, 12, 16), 3: (3, 6, 7, 10, 12), 4: (4, 7, 10)}[k] if tier == "quick" else {1: (1,), 2: (2, 3, 7, 10, 12, 16, 100), 3: (3, 6, 7, 9, 10, 12, 20), 4: (4, 7, 10, 12)}[k]:
                yield {"parts": k, "grid": n, "chunks": [1, top], "kind": "float"}
                if n in (3, 7, 10, 12):
                    yield {"parts": k, "grid": n, "chunks": [100, 103], "kind": "float"}
                    yield {"parts": k, "grid": n, "chunks": [1, 13], "kind": "float32"}
                    yield {"parts": k, "grid": n, "chunks": [1, 9], "kind": "digits"}
        for big in (1000, 1024, 99999, 1 << 20):
            yield {"parts": 3, "grid": 12, "chunks": [big, big + 1], "kind": "float"}

    def run(self, case, rec):
        import numpy as np
        from mixtera.core.query.mixture import StaticMixture

        k, n, kind = case["parts"], case["grid"], case["kind"]
        for comp in compositions(n, k):
            if kind == "float":
                ws = [c / n for c in comp]
            elif kind == "float32":
                ws = [np.float32(c / n) for c in comp]
            else:  # as people write them
                ws = [round(c / n, 4) for c in comp]
            exact = [Q(float(w)) if kind != "float" else Q(c, n) for w, c in zip(ws, comp)]
            total = sum(exact)
            shares = {ident(K("abcd"[i])): w / total for i, w in enumerate(exact)}
            for chunk in range(case["chunks"][0], case["chunks"][1] + 1):
                rec.state((comp, n, kind, chunk))
                first = None
                for perm in itertools.permutations(range(k)):
                    rec.step()
                    rec.trace()
                    try:
                        got = read(StaticMixture(chunk, {K("abcd"[i]): ws[i] for i in perm}))
                    except Exception as e:
                        rec.fail("valid-weights-rejected", f"chunk size {chunk}, weights {[ws[i] for i in perm]}: {e!r}")
                        return
                    bad = judge(got, shares, chunk)
                    if bad:
                        rec.fail("counts", f"chunk size {chunk}, weights {[ws[i] for i in perm]} for {['abcd'[i] for i in perm]}: {got}: {bad}")
                        return
                    if first is None:
                        first = got
                        rec.outcome(tuple(sorted(got.items())))
                    # (the digits of weights not exactly representable make ties inexact)
                    elif first != got and kind == "float" and not same_up_to_ties(first, got, shares, chunk):
                        rec.fail("order-dependent", f"chunk size {chunk}, weights {ws}: {first} or {got} depending on the order {perm}")
                        return


class Invalid:
    """weights that are none"""

    name = "invalid"

    def cases(self, tier):
        for kind in ("flat", "hierarchical", "hierarchical-sub"):
            for k in (0, 1, 2, 3):
                yield {"kind": kind, "parts": k}

    def run(self, case, rec):
        from mixtera.core.query.mixture import Component, HierarchicalStaticMixture, MixtureNode, StaticMixture

        nan, inf = float("nan"), float("inf")
        values = [0.0, 0.2, 0.5, 0.75, 1.0, 1.2, -0.2, -1.0, 2.0, nan, inf, -inf]
        for ws in itertools.product(values, repeat=case["parts"]):
            finite = all(abs(w) != inf and w == w for w in ws)
            if finite and all(w >= 0 for w in ws) and abs(sum(ws) - 1) < 2e-3:
                continue
            for chunk in (1, 4, 10, 1000):
                rec.state((case["kind"], str(ws), chunk))
                rec.step()
                rec.trace()

                def make():
                    if case["kind"] == "flat":
                        return StaticMixture(chunk, {K("abcd"[i]): w for i, w in enumerate(ws)})
                    comps = [Component(["abcd"[i]], w) for i, w in enumerate(ws)]
                    if case["kind"] == "hierarchical":
                        return HierarchicalStaticMixture(chunk, MixtureNode("l", comps))
                    return HierarchicalStaticMixture(chunk, MixtureNode("t", [Component(["x"], 1.0, MixtureNode("l", comps))]))

                no = rejected(make)
                rec.outcome(no)
                if not no:
                    rec.fail("invalid-weights-accepted", f"{case['kind']} mixture with weights {ws} accepted for chunk size {chunk}: {read(make())}")
                    return


SUBS = [None, (1,), ((1, 2), (1, 2)), ((1, 3), (2, 3)), ((1, 3),) * 3, ((1, 10), (2, 10), (7, 10)), ((0, 1), (1, 1)), ((1, 7), (2, 7), (4, 7))]


def fr(x):
    return Q(*x) if isinstance(x, tuple) else Q(x)


class Hierarchy:
    """HierarchicalStaticMixture: all two level trees over a set of weight vectors (thorough: three levels)"""

    name = "hierarchy"

    def cases(self, tier):
        tops = [s for s in SUBS if s] + [((1, 2), (1, 4), (1, 4)), ((1, 10),) * 10]
        for i, t in enumerate(tops):
            for j in range(len(SUBS)):
                yield {"top": i, "first": j, "deep": False, "chunks": 14 if tier == "quick" else 50}
                if tier != "quick" or (i < 4 and j):
                    yield {"top": i, "first": j, "deep": True, "chunks": 7 if tier == "quick" else 20}
        yield {"same": True, "chunks": 12}

    def run(self, case, rec):
        from mixtera.core.query.mixture import Component, HierarchicalStaticMixture, MixtureNode

        tops = [s for s in SUBS if s] + [((1, 2), (1, 4), (1, 4)), ((1, 10),) * 10]

        def leaf(prop, v, w, sub=None):
            return Component([v], float(w), sub)

        def check(node, shares, levels, what):
            for chunk in range(1, case["chunks"] + 1):
                rec.state((what, chunk))
                rec.step()
                rec.trace()
                try:
                    got = read(HierarchicalStaticMixture(chunk, node()))
                except Exception as e:
                    rec.fail("valid-hierarchy-rejected", f"{what}, chunk size {chunk}: {e!r}")
                    return False
                bad = judge(got, shares, chunk, levels)
                if bad:
                    rec.fail("hierarchy-counts", f"{what}, chunk size {chunk}: {got}: {bad}")
                    return False
                rec.outcome(tuple(sorted(got.values())))
            return True

        if case.get("same"):
            # the same component written twice counts twice
            for ws in (((1, 2), (1, 2)), ((1, 4), (1, 2), (1, 4))):
                ws = [fr(w) for w in ws]
                for shape in itertools.product("ab", repeat=len(ws)):
                    sh = {}
                    for v, w in zip(shape, ws):
                        sh[ident(K(v))] = sh.get(ident(K(v)), 0) + w
                    if not check(lambda: MixtureNode("l", [leaf("l", v, w) for v, w in zip(shape, ws)]), sh, 2, f"components {shape} with weights {ws}"):
                        return
                    sh = {ident(K(v, t="x")): w for (((_, (v,)),), w) in sh.items()}
                    if not check(lambda: MixtureNode("t", [Component(["x"], float(w), MixtureNode("l", [leaf("l", v, 1)])) for v, w in zip(shape, ws)]), sh, 2, f"same submixtures {shape} with weights {ws}"):
                        return
            return

        top = [fr(w) for w in tops[case["top"]]]
        n = len(top)
        rest = itertools.product(range(len(SUBS)), repeat=min(n, 3) - 1)
        for more in rest:
            subs = [SUBS[case["first"]]] + [SUBS[m] for m in more] + [None] * (n - min(n, 3))
            for order in ((1, -1) if n > 1 else (1,)):
                shares = {}
                levels = 2

                def node():
                    comps = []
                    for i, (w, s) in enumerate(zip(top, subs)):
                        v = f"v{i}"
                        sub = None
                        if s:
                            sub = MixtureNode("s", [Component([f"s{j}"], float(fr(x)), MixtureNode("u", [Component(["p"], 0.5), Component(["q"], 0.5)]) if case["deep"] and j == 0 else None) for j, x in enumerate(s)])
                        comps.append(Component([v], float(w), sub))
                    return MixtureNode("l", comps[::order])

                for i, (w, s) in enumerate(zip(top, subs)):
                    v = f"v{i}"
                    if not s:
                        shares[ident(K(v))] = w
                        continue
                    for j, x in enumerate(s):
                        if case["deep"] and j == 0:
                            levels = 3
                            for z in "pq":
                                shares[ident(K(v, s=[f"s{j}"], u=[z]))] = w * fr(x) / 2
                        else:
                            shares[ident(K(v, s=[f"s{j}"]))] = w * fr(x)
                if not check(node, shares, levels, f"hierarchy {[str(w) for w in top]} with submixtures {subs} order {order} deep {case['deep']}"):
                    return


class Inferred:
    """InferringMixture: all vectors of domain sizes, split over files and ranges"""

    name = "inferred"

    def cases(self, tier):
        for k in (1, 2, 3, 4):
            yield {"parts": k, "top": {1: 12, 2: 12, 3: 7, 4: 4}[k] + (0 if tier == "quick" else 3), "chunks": 12 if tier == "quick" else 30}
        yield {"parts": 3, "top": 2, "chunks": 100, "scale": 9999991}

    def run(self, case, rec):
        from mixtera.core.query.mixture import InferringMixture

        k = case["parts"]
        empty = InferringMixture(5)
        empty.process_index({})
        if empty.mixture_in_rows() != {}:
            rec.fail("inferred-from-nothing", f"{empty}")
        for sizes in itertools.product(range(1, case["top"] + 1), repeat=k):
            sizes = [s * case.get("scale", 1) + i * (case.get("scale", 1) > 1) for i, s in enumerate(sizes)]
            total = sum(sizes)
            shares = {ident(K("abcd"[i])): Q(s, total) for i, s in enumerate(sizes)}
            perms = list(itertools.permutations(range(k))) if k < 4 else [(0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)]
            for chunk in range(1, case["chunks"] + 1):
                rec.state((tuple(sizes), chunk))
                first = None
                for perm in perms:
                    index = {}
                    for i in perm:
                        s = sizes[i]
                        # the domain is spread over two datasets, files and ranges
                        index[K("abcd"[i])] = {0: {0: [(0, (s + 1) // 2)]}, 1: {1: [(5, 5 + s // 2)]} if s // 2 else {}} if i % 2 else {0: {2: [(3, 4), (9, 8 + s)] if s > 1 else [(3, 4)]}}
                    m = InferringMixture(chunk)
                    m.process_index(index)
                    rec.step()
                    rec.trace()
                    got = read(m)
                    bad = judge(got, shares, chunk)
                    if bad:
                        rec.fail("inferred-counts", f"domain sizes {sizes}, chunk size {chunk}: {got}: {bad}")
                        return
                    if first is None:
                        first = got
                        rec.outcome(tuple(sorted(got.items())))
                    elif first != got and not same_up_to_ties(first, got, shares, chunk):
                        rec.fail("inferred-order-dependent", f"domain sizes {sizes}, chunk size {chunk}: {first} or {got} depending on the order of the index")
                        return


class Wrapped:
    """a mixture inside schedules and dynamic mixtures of another chunk size follows that chunk size"""

    name = "wrapped"

    def cases(self, tier):
        top = 9 if tier == "quick" else 24
        for outer in ("schedule", "dynamic", "schedule-dynamic", "schedule-schedule"):
            for inner in ("static", "hierarchical", "inferring", "inferred"):
                yield {"outer": outer, "inner": inner, "top": top}

    def run(self, case, rec):
        from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm
        from mixtera.core.query.mixture import (Component, HierarchicalStaticMixture, InferringMixture, MixtureNode, MixtureSchedule, ScheduleEntry, StaticMixture)
        from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture

        for comp in itertools.chain(compositions(3, 2), compositions(4, 3), compositions(10, 2)):
            n = sum(comp)
            if case["inner"] in ("inferring", "inferred") and 0 in comp:
                continue
            shares = {ident(K("abcd"[i])): Q(c, n) for i, c in enumerate(comp)}
            index = {K("abcd"[i]): {0: {i: [(0, c)]}} for i, c in enumerate(comp) if c}
            for old, new in itertools.product(range(1, case["top"] + 1), repeat=2):
                rec.state((case["outer"], case["inner"], comp, old, new))
                rec.step()
                rec.trace()
                if case["inner"] == "static":
                    m = StaticMixture(old, {K("abcd"[i]): c / n for i, c in enumerate(comp)})
                elif case["inner"] == "hierarchical":
                    m = HierarchicalStaticMixture(old, MixtureNode("l", [Component(["abcd"[i]], c / n) for i, c in enumerate(comp)]))
                else:
                    m = InferringMixture(old)
                    if case["inner"] == "inferred":
                        m.process_index(index)
                if case["outer"].endswith("dynamic"):
                    m = DynamicMixture(new if case["outer"] == "dynamic" else old + 1, m, SimpleAveragingAlgorithm())
                if case["outer"] == "schedule-schedule":
                    m = MixtureSchedule(old + 2, [ScheduleEntry(0, m)])
                if case["outer"].startswith("schedule"):
                    m = MixtureSchedule(new, [ScheduleEntry(0, m)])
                if case["inner"] == "inferring":
                    m.process_index(index)
                got = read(m)
                bad = judge(got, shares, new)
                if bad or m.chunk_size != new:
                    rec.fail("wrapped-counts", f"{case['inner']} mixture of chunk size {old} inside a {case['outer']} of chunk size {new}, weights {comp}/{n}: {got}: {bad or 'chunk size ' + str(m.chunk_size)}")
                    return
                rec.outcome(tuple(sorted(got.items())))


HARNESSES = [Flat(), Invalid(), Hierarchy(), Inferred(), Wrapped()]
