"""C23: dynamic mixing algorithms keep valid weights and consistent statistics."""
import copy
import itertools
import os
import pickle
import types

import dill
import numpy as np

from mc import env

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of feedback sequences over small losses and counts x algorithm configurations on the real algorithms, with permuted domains, padded reports and pickling at every point as reference runs"
RULE = ("a case = algorithm configuration x first reports of a sequence; within it all sequences up to the length, each run on the plain algorithm, with domains permuted, with reports padded by unsampled domains, and pickled after every report; "
        "states = distinct (configuration, sequence), transitions = reports processed, traces = runs compared")
ASSUMPTIONS = ["a sampled domain has a positive loss", "the numeric optimizer of the scaling laws is replaced by a deterministic search over a few of the real starting points (some cases run the real optimizer)",
               "the minimum probability holds before the final renormalisation, i.e. weights may be below it by the factor 1 / (1 + domains x minimum)"]

# reports: losses, counts (of the first domains)
R = {
    "a": ([4.0, 2.0], [2, 1]),
    "b": ([0.0, 3.0], [0, 1]),
    "c": ([8.0], [2]),
    "d": ([1.0, 2.0, 9.0], [1, 1, 2]),
    "e": ([0.0, 0.0, 6.0], [0, 0, 3]),
    "z": ([0.0, 0.0], [0, 0]),
}


def prepare(tier):
    env.boot()


class Res:
    def __init__(self, x, fun):
        self.x, self.fun, self.success = np.array(x, dtype=float), fun, True


FEW = {(0, 1.0): 0.5, (1, 1.0): 0.1, (2, 1.5): 0.3, (-1, 1.5): 0.7, (3, 1.0): 0.2}
BAD = Res((0, 0, 0), np.inf)
BAD.success = False


def fake_minimize(fn, guess, args=(), **kw):
    """the best of a few of the starting points"""
    alpha = FEW.get((guess[0], guess[1]))
    if alpha is not None and abs(alpha - guess[2]) < 0.01:
        f = float(fn(guess, *args))
        if np.isfinite(f):
            return Res(guess, f)
    return BAD


class Serial:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def map(self, f, args):
        return [f(a) for a in args]


def pad(x, n):
    return list(x) + [0] * (n - len(x))


def feed(alg, report, mid, perm=None, n=None):
    """perm: position of domain i; n: padded length"""
    l, c = report
    if n:
        l, c = pad(l, n), pad(c, n)
    if perm:
        l, c = pad(l, len(perm)), pad(c, len(perm))
        pl, pc = [0.0] * len(perm), [0] * len(perm)
        for i, p in enumerate(perm):
            pl[p], pc[p] = l[i], c[i]
        l, c = pl, pc
    return alg.process_losses(np.array(l, dtype=np.float32), np.array(c, dtype=np.int64), mid)


CONFIGS = {"average": [{}]}
for v in ("vanilla", "adjusted_v1", "adjusted_v2", "adjusted_v3"):
    CONFIGS[v] = [
        {"use_same_step_size": True, "savgol": False, "delta_min": 0.01, "every": 1},
        {"use_same_step_size": False, "savgol": True, "delta_min": 0.1, "every": 2},
        {"use_same_step_size": True, "savgol": True, "delta_min": 0.2, "every": 3, "count_normalizer": 2},
        {"use_same_step_size": False, "savgol": False, "delta_min": 0.0, "every": 2, "gamma1": 0.9, "gamma2": 1.0, "s": 1.0},
    ]


class Algo:
    name = "algo"
    cpu_limit = 400
    wall_limit = 800
    real = False

    def setup(self):
        os.environ["TQDM_DISABLE"] = "1"
        from mixtera.core.algo.ado import ado

        self.ado = ado
        self.saved = {k: getattr(ado, k) for k in ("minimize", "mp", "tqdm") if hasattr(ado, k)}
        if "mp" in self.saved:
            ado.mp = types.SimpleNamespace(**{k: getattr(ado.mp, k) for k in dir(ado.mp) if not k.startswith("__")})
            ado.mp.Pool = Serial
        if "tqdm" in self.saved:
            ado.tqdm = lambda it, **k: it
        if not self.real and "minimize" in self.saved:
            ado.minimize = fake_minimize

    def make(self, kind, conf, perm=None):
        if kind == "average":
            from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm

            alg = SimpleAveragingAlgorithm()
        else:
            conf = dict(conf)
            every = conf.pop("every")
            alg = self.ado.AdoDynamicMixing(variant=kind, scaling_law_update_interval=every, subsampling_interval=1, ignore_initial_steps=0, start_step=1 if every == 1 else 2, **conf)
        init = [0.5, 0.25, 0.25]
        if perm:
            init = [0.0] * len(perm)
            for i, p in enumerate(perm):
                init[p] = [0.5, 0.25, 0.25][i]
        alg.initial_mixture = np.array(init, dtype=np.float32)
        return alg

    def cases(self, tier):
        n = 3 if tier == "quick" else 4
        for kind in CONFIGS:
            for i in range(len(CONFIGS[kind])):
                for a in R:
                    for mids in ("new", "old"):
                        if tier == "quick" and mids == "old" and kind in ("vanilla", "average"):
                            continue
                        yield {"kind": kind, "conf": i, "first": a, "mids": mids, "len": n + (2 if kind == "average" and tier != "quick" else 0)}

    def run(self, case, rec):
        kind, conf = case["kind"], CONFIGS[case["kind"]][case["conf"]]
        for rest in itertools.product(R, repeat=case["len"] - 1):
            seq = case["first"] + "".join(rest)
            if not self.sequence(rec, kind, conf, seq, case["mids"]):
                return

    def sequence(self, rec, kind, conf, seq, mids, slack=1e-5):
        where = f"{kind} {conf}, reports {[R[x] for x in seq]}: "
        rec.state((kind, str(conf), seq, mids))

        def mid(i):
            return i // 2 if mids == "new" else 0

        alg = self.make(kind, conf)
        outs, dumps = [], []
        for i, x in enumerate(seq):
            rec.step()
            try:
                o = feed(alg, R[x], mid(i))
            except Exception as e:
                rec.fail("fails", where + f"report {i} fails: {type(e).__name__}: {e}")
                return False
            dumps.append(pickle.dumps(alg) if i % 2 else dill.dumps(alg))
            outs.append(None if o is None else np.array(o, dtype=float))
            done = seq[:i + 1]
            n = max(len(R[y][0]) for y in done)
            tl = [sum(pad(R[y][0], n)[j] for y in done) for j in range(n)]
            tc = [sum(pad(R[y][1], n)[j] for y in done) for j in range(n)]
            al, ac = list(map(float, alg.losses)), list(map(int, alg.counts))
            if al[:n] != tl or ac[:n] != tc or any(al[n:]) or any(ac[n:]):
                rec.fail("accumulated", where + f"after report {i} accumulated losses {al}, counts {ac}, reported {tl}, {tc}")
                return False
            if kind != "average" and alg.total_steps != i + 1:
                rec.fail("steps", where + f"counted {alg.total_steps} steps after {i + 1} reports")
                return False
            if o is None:
                continue
            o = outs[-1]
            if len(o) != len(al) or not np.all(np.isfinite(o)) or np.any(o < 0) or abs(o.sum() - 1) > 1e-4:
                rec.fail("weights", where + f"after report {i} the weights are {o} (known domains: {len(al)})")
                return False
            k = sum(c > 0 for c in ac)
            dm = conf.get("delta_min", 0)
            for j, c in enumerate(ac):
                if c > 0 and o[j] < dm / (1 + k * dm) - 1e-6:
                    rec.fail("minimum", where + f"after report {i} domain {j} has weight {o[j]} although the minimum is {dm}: {o}")
                    return False
            if kind == "average":
                avg = [l / c if c else 0 for l, c in zip(tl, tc)]
                want = [a / sum(avg) for a in avg] if sum(avg) else [(c > 0) / k for c in tc]
                if not np.allclose(o[:n], want, atol=1e-6):
                    rec.fail("average", where + f"after report {i} the weights are {o}, average losses {avg}")
                    return False
        rec.trace()
        rec.outcome(tuple(None if o is None else tuple(np.round(o, 5)) for o in outs))

        def compare(key, what, got, tol=slack):
            rec.trace()
            for i, (a, b) in enumerate(itertools.zip_longest(outs, got)):
                if (a is None) != (b is None) or a is not None and not np.allclose(pad(a, max(len(a), len(b))), pad(b, max(len(a), len(b))), atol=tol):
                    rec.fail(key, where + f"{what}: after report {i} the weights are {b} instead of {a}")
                    return False
            return True

        # domains in another order
        for perm in ((1, 2, 0), (2, 1, 0)):
            alg = self.make(kind, conf, perm)
            got = []
            for i, x in enumerate(seq):
                rec.step()
                o = feed(alg, R[x], mid(i), perm)
                got.append(None if o is None else np.array([np.array(o, dtype=float)[p] for p in perm]))
            # all three domains are known from the start in this run
            if not compare("domain-order", f"with the domains at positions {perm}", got):
                return False
        # reports that mention all domains explicitly
        alg = self.make(kind, conf)
        if not compare("padding", "with reports that mention unsampled domains", [feed(alg, R[x], mid(i), n=3) for i, x in enumerate(seq)]):
            return False
        # saved and restored after each report
        for cut in range(len(seq) - 1):
            alg = (pickle if cut % 2 else dill).loads(dumps[cut])
            got = outs[:cut + 1] + [feed(alg, R[x], mid(i)) for i, x in enumerate(seq) if i > cut]
            rec.step(len(seq) - cut)
            if not compare("restored", f"saved and restored after report {cut}", got, 0):
                return False
        # a copy does not share state
        alg = self.make(kind, conf)
        got = []
        for i, x in enumerate(seq):
            feed(copy.deepcopy(alg), R["d"], 9)
            got.append(feed(alg, R[x], mid(i)))
        return compare("copied", "when copies receive other reports", got, 0)


class Real(Algo):
    """with the real optimizer"""

    name = "real-optimizer"
    real = True
    cpu_limit = 600
    wall_limit = 850

    def cases(self, tier):
        if tier == "quick":
            return  # takes minutes
        for kind in [k for k in CONFIGS if k != "average"]:
            for i in range(2):
                for seq in ("ad", "db"):
                    yield {"kind": kind, "conf": i, "seq": seq}

    def run(self, case, rec):
        self.sequence(rec, case["kind"], CONFIGS[case["kind"]][case["conf"]], case["seq"], "new", 2e-2)


class Grow(Algo):
    """domains that appear later, on top of an initial mixture that does not have them"""

    name = "growth"

    def make(self, kind, conf, perm=None):
        alg = super().make(kind, conf)
        alg.initial_mixture = np.array(self.init, dtype=np.float32)
        return alg

    def cases(self, tier):
        for kind in CONFIGS:
            for i in range(len(CONFIGS[kind])):
                for init in ([1.0], [0.5, 0.5], [0.25, 0.75]):
                    yield {"kind": kind, "conf": i, "init": init, "len": 3 if tier == "quick" else 4}

    def run(self, case, rec):
        kind, conf, self.init = case["kind"], CONFIGS[case["kind"]][case["conf"]], case["init"]
        for seq in itertools.product("abcdez" if case["len"] == 3 else "acde", repeat=case["len"]):
            where = f"{kind} {conf}, initial mixture {self.init}, reports {[R[x] for x in seq]}: "
            rec.state((kind, str(conf), str(self.init), seq))
            runs = []
            for padded in (False, True):
                alg = self.make(kind, conf)
                if padded:
                    alg.initial_mixture = np.array(pad(self.init, 3), dtype=np.float32)
                outs = []
                for i, x in enumerate(seq):
                    rec.step()
                    try:
                        o = feed(alg, R[x], i, n=3 if padded else None)
                    except Exception as e:
                        rec.fail("fails", where + f"report {i} ({'padded' if padded else 'as is'}) fails: {type(e).__name__}: {e}")
                        return
                    if o is not None:
                        o = np.array(o, dtype=float)
                        if len(o) != len(alg.losses) or not np.all(np.isfinite(o)) or np.any(o < 0) or abs(o.sum() - 1) > 1e-4:
                            rec.fail("weights", where + f"after report {i} the weights are {o} (known domains: {len(alg.losses)})")
                            return
                        if len(o) > 3 or len(o) < max(len(R[y][0]) for y in seq[:i + 1]):
                            rec.fail("domains", where + f"after report {i} there are weights for {len(o)} domains")
                            return
                    outs.append(None if o is None else pad(o, 3))
                runs.append(outs)
            rec.trace()
            rec.outcome(str(runs[0][-1] and np.round(runs[0][-1], 4)))
            for i, (a, b) in enumerate(zip(*runs)):
                if (a is None) != (b is None) or a is not None and not np.allclose(a, b, atol=1e-5):
                    rec.fail("growth", where + f"after report {i} the weights are {a}, but {b} if all domains are known from the start")
                    return


class Late(Algo):
    """reports for older mixtures that arrive late: not a change of the mixture at the client"""

    name = "late-reports"

    def cases(self, tier):
        for kind in CONFIGS:
            for i in range(len(CONFIGS[kind])):
                for first in "ab" if tier == "quick" else "abd":
                    yield {"kind": kind, "conf": i, "first": first, "len": 4 if tier == "quick" else 5}

    def run(self, case, rec):
        kind, conf, n = case["kind"], CONFIGS[case["kind"]][case["conf"]], case["len"]
        seqs = [case["first"] + "".join(x) for x in itertools.product("ad", repeat=n - 1)]
        for seq in seqs[:: 1 if n > 4 else 3]:
            plain = {}
            for ids in itertools.product(range(3), repeat=n):
                newest = tuple(max(ids[: i + 1]) for i in range(n))
                rec.state((kind, str(conf), seq, ids))
                alg = self.make(kind, conf)
                outs = [feed(alg, R[x], ids[i]) for i, x in enumerate(seq)]
                rec.step(n)
                rec.trace()
                outs = [None if o is None else tuple(map(float, o)) for o in outs]
                if ids == newest:
                    plain[ids] = outs
                    rec.outcome(str(outs))
                else:
                    if newest not in plain:
                        alg = self.make(kind, conf)
                        plain[newest] = [None if o is None else tuple(map(float, o)) for o in (feed(alg, R[x], newest[i]) for i, x in enumerate(seq))]
                    if outs != plain[newest]:
                        rec.fail("late", f"{kind} {conf}, reports {[R[x] for x in seq]} for the mixtures {ids}: {outs}, but {plain[newest]} if the late reports are for the newest mixture {newest}")
                        return


HARNESSES = [Algo(), Real(), Grow(), Late()]
