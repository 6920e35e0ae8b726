"""C21: domain keys match consistently everywhere."""
import copy
import itertools
import pickle

import dill

from mc import env, jobs, shim, space, world

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all pairs and triples of keys over a small alphabet in all spellings, and of all sequences of mixture updates on the real query result, against set-theoretic matching and an id assignment model"
RULE = ("a case = a block of keys (all subsets of values of up to three properties, in all orders, with repetitions, built in different ways), compared with all other keys, or a data layout and the first of a sequence of mixture updates; "
        "states = distinct (key, key) pairs and id maps, transitions = comparisons and chunks drawn, traces = pairs and update sequences compared with the model")
ASSUMPTIONS = ["all values of one property are of one type", "restored jobs are compared sample by sample, including domain ids, by C11"]


def prepare(tier):
    env.boot()


def canon(k):
    return tuple(sorted((p, tuple(sorted(set(map(str, v))))) for p, v in k.properties.items()))


def subsets(values):
    for k in range(1, len(values) + 1):
        yield from itertools.combinations(values, k)


ALPHAS = {
    "plain": {"l": ["a", "b", "c"], "t": ["x", "y"]},
    "three": {"l": ["a", "b"], "t": ["a", "x"], "u": ["a"]},
    "special": {"l": ["a:b", "a", "b;t:x"], "t": ["ü", "x,y"]},
    "numbers": {"l": [1, 2, 10], "t": [0.5, 1.5]},
    "empty": {"l": ["", "a"], "t": [""]},
    "names": {"a": ["x", "y"], "a:x": ["y"], "b": ["x"]},
}


def keys_of(alpha):
    """all canonical keys: {prop: tuple of values}"""
    props = sorted(ALPHAS[alpha])
    out = []
    for k in range(1, len(props) + 1):
        for ps in itertools.combinations(props, k):
            for vs in itertools.product(*(list(subsets(ALPHAS[alpha][p])) for p in ps)):
                out.append(dict(zip(ps, vs)))
    out.append({})
    return out


def spellings(c):
    """property dictionaries that mean the same key"""
    out = [{p: list(v) for p, v in c.items()}]
    out.append({p: list(v)[::-1] for p, v in reversed(list(c.items()))})
    out.append({p: list(v) + [v[0]] for p, v in c.items()})
    out.append({p: [v[-1]] * 2 + list(v)[1:] + [v[0]] for p, v in c.items()})
    return out


def match(m, d):
    return all(p in d and set(v) & set(d[p]) for p, v in m.items())


class Pairs:
    name = "pairs"

    def cases(self, tier):
        for a in ALPHAS:
            n = len(keys_of(a))
            for i in range(0, n, 8):
                yield {"alpha": a, "from": i, "to": min(n, i + 8)}

    def run(self, case, rec):
        from mixtera.core.query.mixture import MixtureKey

        cs = keys_of(case["alpha"])

        def build(props, how):
            if how == 0:
                return MixtureKey(props)
            k = MixtureKey({})
            if how == 2:
                hash(k)
            for p, v in props.items():
                if how == 3:
                    k.add_property(p, ["zz"])
                    hash(k)
                k.add_property(p, v)
            return k

        variants = []
        for c in cs:
            vs = []
            for j, s in enumerate(spellings(c)):
                keep = copy.deepcopy(s)
                k = build(s, j)
                hash(k)
                str(k)
                if s != keep:
                    rec.fail("user-data-modified", f"properties {keep} became {s} when the key was used")
                    return
                vs.append(k)
            variants.append(vs)
        table = {vs[0]: i for i, vs in enumerate(variants)}
        if len(table) != len(cs):
            rec.fail("keys-merged", f"{len(cs)} different keys occupy {len(table)} entries of a dictionary")
            return
        names = {}
        for i, vs in enumerate(variants):
            names.setdefault(str(vs[0]), i)

        for i in range(case["from"], case["to"]):
            for v, a in enumerate(variants[i]):
                for how, x in (("itself", a), ("pickle", pickle.loads(pickle.dumps(a))), ("dill", dill.loads(dill.dumps(a))), ("copy", copy.deepcopy(a))):
                    rec.step()
                    if table.get(x) != i:
                        rec.fail("lookup", f"key {a.properties} ({how}) is {'not found' if x not in table else 'found as ' + str(variants[table[x]][0].properties)} among all keys")
                        return
                    if hash(x) != hash(variants[i][0]) or str(x) != str(variants[i][0]):
                        rec.fail("spelling", f"{a.properties} ({how}) and {variants[i][0].properties} mean the same, but differ in hash or text")
                        return
                if a == "l:a" or a == None or not (a != 3):  # noqa: E711
                    rec.fail("equal-to-other-type", f"{a.properties}")
            for j, d in enumerate(cs):
                rec.state((case["alpha"], i, j))
                rec.trace()
                want = match(cs[i], d)
                rec.outcome(want)
                less = set()
                for a in variants[i]:
                    for b in variants[j]:
                        rec.step()
                        if (a == b) is not want or (a != b) is want:
                            rec.fail("match", f"mixture key {a.properties} and domain {b.properties}: match is {a == b}, but should be {want}")
                            return
                        less.add((a < b, b < a))
                if len(less) > 1 or next(iter(less)) not in ({(False, False)} if i == j else {(True, False), (False, True)}):
                    rec.fail("order", f"{cs[i]} < {cs[j]} gives {less} depending on the spelling")
                    return
        # sorting is the same whatever the initial order, and transitive
        if case["from"] == 0:
            ref = None
            n = len(variants)
            for seed in range(24):
                lst = [variants[(i * p + seed) % n][(i + seed) % 4] for p in [next(q for q in (7, 11, 13, 5, 1) if n % q)] for i in range(n)]
                lst = lst if len({canon(k) for k in lst}) == n else [vs[seed % 4] for vs in variants]
                got = [canon(k) for k in sorted(lst)]
                ref = ref or got
                if got != ref:
                    rec.fail("sorting", f"sorting all keys of {case['alpha']} depends on their initial order")
                    return
            lt = [[variants[i][0] < variants[j][0] for j in range(n)] for i in range(n)]
            for i, j, k in itertools.permutations(range(n), 3):
                if lt[i][j] and lt[j][k] and not lt[i][k]:
                    rec.fail("order-not-transitive", f"{cs[i]} < {cs[j]} < {cs[k]}")
                    return
                rec.step()


UPDATES = {
    "single": [
        [("l", ["a"], 1), ("l", ["b"], 1)],
        [("l", ["b"], 1), ("l", ["a"], 1)],
        [("l", ["b", "c"], 1)],
        [("l", ["c", "b", "b"], 1), ("l", ["a"], 1)],
        [("l", ["c"], 1), ("l", ["a", "b"], 1)],
        None,
    ],
    "two": [
        [({"l": ["a"]}, None, 1)],
        [({"l": ["a"], "t": ["x"]}, None, 1), ({"l": ["b"]}, None, 1)],
        [({"t": ["x"], "l": ["a", "a"]}, None, 1), ({"t": ["y"]}, None, 1)],
        [({"t": ["y", "x"]}, None, 1)],
        [({"l": ["b"]}, None, 1), ({"l": ["a"]}, None, 1)],
        None,
    ],
    "multi": [
        [("l", ["a"], 1), ("l", ["b"], 1)],
        [("l", ["a", "b"], 1)],
        [("l", ["b", "a", "a"], 1)],
        [("l", ["b"], 1)],
        None,
    ],
}
LAYOUT = {"single": ["AABBCCABC", "CBAABCBA"], "two": ["AABBCCABC", "CBAABCBA"], "multi": ["AABBCCABC", "CBAABCBA"]}


class Updates:
    """domain ids and domain contents over all sequences of mixture updates"""

    name = "updates"
    cpu_limit = 200
    wall_limit = 400

    def setup(self):
        self.w = world.world()

    def cases(self, tier):
        n = 4 if tier == "quick" else 5
        for alpha, ups in UPDATES.items():
            for a, b in itertools.product(range(len(ups)), repeat=2):
                yield {"alpha": alpha, "first": [a, b], "len": n}

    def mixture(self, alpha, i, strict):
        from mixtera.core.query.mixture import ArbitraryMixture, MixtureKey, StaticMixture

        u = UPDATES[alpha][i]
        if u is None:
            return ArbitraryMixture(2)
        return StaticMixture(2, {MixtureKey(copy.deepcopy(p) if isinstance(p, dict) else {p: list(v)}): w / sum(x[2] for x in u) for p, v, w in u}, strict=strict)

    def run(self, case, rec):
        from c01 import build
        from mixtera.core.query.query_result import QueryResult

        alpha = case["alpha"]
        table, _, _ = build(self.w, LAYOUT[alpha], alpha)
        domain = {}
        comp = {}
        for (did, fid, _), s in zip(self.w.files, LAYOUT[alpha]):
            for i, c in enumerate(s):
                p = space.ALPHABETS[alpha][c]
                comp[self.w.text[fid][i]] = {k: list(v) if isinstance(v, (list, tuple)) else [v] for k, v in p.items() if v is not None}
        for rest in itertools.product(range(len(UPDATES[alpha])), repeat=case["len"] - 2):
            seq = case["first"] + list(rest)
            for replica, order in enumerate((None, {"domains": "reversed"})):
                shim.ORDER[0] = order if order is None else {"domains": [2, 1, 0], "datasets": "reversed", "files": "reversed"}
                ids = {}
                qr = QueryResult(self.w.cmdc, table, self.mixture(alpha, seq[0], False))
                qr.stop_on_none = False
                for step, u in enumerate(seq):
                    if step:
                        qr.update_mixture(self.mixture(alpha, u, False))
                    chunk = next(qr)
                    rec.step()
                    where = f"layout {LAYOUT[alpha]} ({alpha}), updates {seq[:step + 1]}, replica {replica}: "
                    m = {canon(k): v for k, v in qr._key_id_map.items()}
                    if len(m) != len(qr._key_id_map) or len(set(m.values())) != len(m):
                        rec.fail("id-shared", where + f"id map {qr._key_id_map}")
                        return
                    for x, k in ((dict(m), "id map"),):
                        for d, i in x.items():
                            if ids.setdefault(d, i) != i:
                                rec.fail("id-changed", where + f"domain {d} has id {i} in the {k}, earlier {ids[d]}")
                                return
                    if chunk is None:
                        rec.outcome("exhausted")
                        continue
                    want = None if UPDATES[alpha][u] is None else self.mixture(alpha, u, False).mixture_in_rows()
                    byid = {}
                    for k in chunk._result_index:
                        byid[ids[canon(k)]] = {p: list(v) for p, v in k.properties.items()}
                    raw = dill.dumps(chunk)
                    for c in (chunk, dill.loads(raw)):
                        n = 0
                        for _, i, text in jobs.stream(c):
                            n += 1
                            if i not in byid:
                                rec.fail("unknown-id", where + f"sample {text} has domain id {i}, the chunk has {byid}")
                                return
                            if not match(byid[i], comp[text]):
                                rec.fail("wrong-domain", where + f"sample {text} with {comp[text]} is delivered as {byid[i]}")
                                return
                        if n == 0:
                            rec.fail("empty", where + "empty chunk")
                            return
                    if want is not None and not {canon(k) for k in chunk._result_index} <= {canon(k) for k in want}:
                        rec.fail("foreign-domain", where + f"chunk has domains {list(chunk._result_index)}, the mixture {want}")
                        return
                    rec.outcome(tuple(sorted(byid)))
                rec.state((alpha, tuple(sorted(ids.items()))))
                rec.trace()
                key = tuple(sorted(ids.items()))
                if replica == 0:
                    ref = key
                elif ref != key:
                    rec.fail("replicas-differ", f"updates {seq}: ids {dict(ref)} or {dict(key)}")
                    return
        shim.ORDER[0] = None


HARNESSES = [Pairs(), Updates()]
