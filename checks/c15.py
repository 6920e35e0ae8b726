"""C15: tokenized streaming conserves the text and is schedule independent."""
import itertools

from mc import env, sched
from mc.sched import Scheduler, attempt, explore, patched, traced

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of text lengths x options against a specification of the token stream, plus stateless exploration of all interleavings (preemption bound) of the background tokenizer and the consumer, with source failures at every position"
RULE = ("a case = text lengths x failure position; within it all sequence lengths, batch sizes and options for the synchronous iterator; for the threaded one all schedules up to the preemption bound with a scheduling point at every attribute access, lock and "
        "condition operation, source read and tokenizer call; states = distinct (input, options, output), transitions = scheduling steps and sequences, traces = streams or schedules compared")
ASSUMPTIONS = ["the tokenizer is a deterministic stand-in that gives every character of every text its own token", "attribute accesses of CPython are atomic"]


class Boom(Exception):
    pass


class Tok:
    """text t<i>:<n> -> n tokens that name text and position"""

    eos_token_id = 1
    bos_token_id = 2
    pad_token_id = None

    def _ids(self, text):
        i, n = map(int, text.split(":"))
        return [1000 * (i + 1) + j for j in range(n)]

    def batch_encode_plus(self, texts, **k):
        sched._pt()
        return {"input_ids": [self._ids(t) for t in texts]}

    __call__ = batch_encode_plus

    def encode(self, text, **k):
        return self._ids(text)


def source(lens, fail=None):
    for i, n in enumerate(lens):
        sched._pt()
        if fail == i:
            raise Boom(i)
        yield f"{i}:{n}"
    sched._pt()
    if fail is not None and fail >= len(lens):
        raise Boom(len(lens))


def spec(lens, seq, one, overlap, eos, bos):
    """the complete stream without failures"""
    T = []
    for i, n in enumerate(lens):
        T += ([2] if bos else []) + Tok()._ids(f"{i}:{n}") + ([1] if eos else [])
    step = seq if overlap else seq + 1
    out = []
    p = 0
    while p + seq + 1 <= len(T):
        out.append(T[p:p + seq + 1])
        p += step
    if not out and one and T:
        out.append((T * (seq + 2))[:seq + 1])
    return out


def options(tier, small=False):
    for seq in (1, 2, 3) if not small else (1, 2):
        for bs in (1, 2, 3) if not small else (1, 2):
            for overlap in (True, False):
                for eos, bos in ((False, False), (True, False), (False, True), (True, True)) if not small else ((False, False), (True, True)):
                    for one in (True, False):
                        yield seq, bs, one, overlap, eos, bos


def expected(lens, fail, opt):
    seq, bs, one, overlap, eos, bos = opt
    if fail is None:
        return [("v", x) for x in spec(lens, seq, one, overlap, eos, bos)] + [("end",)]
    # everything complete before the batch in which the source failed, then its error
    good = lens[:min(fail, len(lens)) // bs * bs]
    return [("v", x) for x in spec(good, seq, False, overlap, eos, bos)] + [("error", "Boom", (min(fail, len(lens)),))]


class Sync:
    name = "synchronous"

    def cases(self, tier):
        top, m = (4, 3) if tier == "quick" else (5, 4)
        for k in range(top + 1):
            for lens in itertools.product(range(m + 1), repeat=k):
                yield {"lens": list(lens)}

    def run(self, case, rec):
        from mixtera.utils.tokenizing_iterator import TokenizingIterator

        lens = case["lens"]
        for opt in options("quick"):
            seq, bs, one, overlap, eos, bos = opt
            for fail in [None] + (list(range(len(lens) + 1)) if len(lens) < 4 and one else []):
                want = expected(lens, fail, opt)
                it = TokenizingIterator(source(lens, fail), Tok(), seq, bs, one, overlap, eos, bos)
                if iter(it) is not it:
                    rec.fail("iter", "iter() gives another object")
                got = attempt(lambda: next(it), len(want) + (fail is None))
                if fail is None:
                    want = want + [("end",)]
                else:
                    # texts of the failing batch may or may not be used; what is required: complete sequences, then the error
                    pass
                rec.step(len(got))
                rec.trace()
                rec.state((tuple(lens), opt, fail))
                if got != want:
                    rec.fail("wrong-sequences", f"texts of {lens} tokens, seq={seq} batch={bs} one={one} overlap={overlap} eos={eos} bos={bos} failure at {fail}:\n got {got}\nwant {want}")
                    return


class Threaded:
    name = "threaded"
    cpu_limit = 300
    wall_limit = 600

    def cases(self, tier):
        top, m = (3, 2) if tier == "quick" else (3, 3)
        for k in range(top + 1):
            for lens in itertools.product(range(m + 1), repeat=k):
                for fail in [None] + list(range(k + 1)):
                    bound = 1 if k >= 2 else 2
                    if k == 3 and (0 in lens or fail in (1, 2)) and tier == "quick":
                        continue
                    if tier == "thorough":
                        bound += 1
                    for one in (True, False):
                        yield {"lens": list(lens), "fail": fail, "bound": bound, "one": one}

    def run(self, case, rec):
        from mixtera.utils import tokenizing_iterator as ti

        cls = traced(ti.ThreadedTokenizingIterator)
        lens, fail = case["lens"], case["fail"]
        for opt in options("quick", small=True):
            seq, bs, one, overlap, eos, bos = opt
            if one != case["one"] or (fail is not None and (eos or not overlap)) or (len(lens) == 3 and (seq, overlap) == (1, True)):
                continue
            want = expected(lens, fail, opt)

            def run(ch):
                got = []
                s = Scheduler(ch)

                def main():
                    it = cls(source(lens, fail), Tok(), seq, bs, one, overlap, eos, bos)
                    for _ in range(len(want)):
                        got.extend(attempt(lambda: next(it), 1))

                with patched([ti]):
                    t = s.spawn(main, "consumer")
                    try:
                        s.run()
                    except sched.Deadlock as e:
                        got.append(f"deadlock: {e}")
                    except sched.Livelock as e:
                        got.append(f"no end: {e}")
                rec.step(len(s.trace))
                if t.exc:
                    got.append(f"consumer failed: {t.exc!r}")
                return got

            bad = []

            def on_run(got, choices):
                rec.trace()
                rec.state((tuple(lens), fail, opt, str(got)))
                if got != want:
                    bad.append(1)
                    rec.fail("schedule", f"texts of {lens} tokens, seq={seq} batch={bs} one={one} overlap={overlap} eos={eos} bos={bos} failure at {fail}, schedule {choices}:\n got {got}\nwant {want}")
                    return False

            n, _ = explore(run, case["bound"], limit=6000, on_run=on_run)
            if n >= 6000:
                rec.cap("schedule limit of 6000 per option set reached in some cases")
            if bad:
                return


class Chunk:
    """token mode of a chunk: domains, strict proportions, positions, resume; with and without threads"""

    name = "chunk"
    cpu_limit = 120

    def cases(self, tier):
        top = 2 if tier == "quick" else 3
        for k in (1, 2):
            for sizes in itertools.product(range(1, top + 2), repeat=k):
                for tok in itertools.product((1, 2, 4), repeat=k):
                    yield {"sizes": list(sizes), "tokens": list(tok)}

    def run(self, case, rec):
        import c13
        import transformers
        from mixtera.core.client.mixtera_client import ResultStreamingArgs

        sizes, toks = case["sizes"], case["tokens"]
        starts = [sum(sizes[:j]) for j in range(len(sizes))]

        class Texts(c13.Mem):
            @staticmethod
            def read_ranges_from_files(rpf, f, conn):
                for name, ranges in rpf.items():
                    j = int(name[1:])
                    for s, e in ranges:
                        for i in range(s, e):
                            yield f"{starts[j] + i}:{toks[j]}"

        class Auto:
            @staticmethod
            def from_pretrained(name, **k):
                return Tok()

        total = sum(sizes)
        saved = transformers.AutoTokenizer
        transformers.AutoTokenizer = Auto
        try:
            for seq, overlap, eos, one in itertools.product((1, 2), (True, False), (True, False), (True, False)):
                per = []
                for j, n in enumerate(sizes):
                    ids = [f"{starts[j] + i}:{toks[j]}" for i in range(n)]
                    T = []
                    for t in ids:
                        T += Tok()._ids(t) + ([1] if eos else [])
                    step = seq if overlap else seq + 1
                    out = [T[p:p + seq + 1] for p in range(0, len(T), step) if p + seq + 1 <= len(T)]
                    if not out and one and T:
                        out = [(T * (seq + 2))[:seq + 1]]
                    per.append(out)
                streams = {}
                for thread in (False, True):
                    def mk(skip=0):
                        idx = {c13.key(l): {0: {j: [(0, n)]}} for j, (l, n) in enumerate(zip("ABC", sizes))}
                        c = c13.build(idx, sizes, total, {k: n for k, n in zip(idx, sizes)}, {k: j for j, k in enumerate(idx)}, dstype=Texts)
                        c.configure_result_streaming(None, ResultStreamingArgs(
                            job_id="j", chunk_reading_mixture_type="token", chunk_reading_sequence_len=seq, chunk_reading_tokenizer="t",
                            chunk_reading_tokenization_bs=2, chunk_reading_token_overlapping=overlap, chunk_reading_eos=eos, chunk_reading_bos=False,
                            chunk_reading_token_separate_thread=thread, chunk_reading_token_at_least_one_sample=one, chunk_reading_prefetch_first_sample=False))
                        c._samples_to_skip = skip
                        return c

                    out = list(mk())
                    streams[thread] = out
                    rec.step(len(out))
                    rec.trace()
                    rec.state((tuple(sizes), tuple(toks), seq, overlap, eos, one))
                    tag = f"{case} seq={seq} overlap={overlap} eos={eos} one={one} thread={thread}"
                    if [p for p, _, _ in out] != list(range(len(out))):
                        rec.fail("token-positions", f"{tag}: {out}")
                        return
                    for j in range(len(sizes)):
                        got = [s for _, k, s in out if k == j]
                        if got != per[j][:len(got)]:
                            rec.fail("token-domain", f"{tag}: domain {j} streams {got}, its text gives {per[j]}")
                            return
                    # complete windows have exactly the chunk's mixture, the last one is cut when a domain ran out
                    left = [len(x) for x in per]
                    pos, ended = 0, False
                    while pos < len(out):
                        win = [k for _, k, _ in out[pos:pos + total]]
                        cnt = [win.count(j) for j in range(len(sizes))]
                        if ended or cnt != [min(l, n) for l, n in zip(left, sizes)]:
                            rec.fail("token-window", f"{tag}: window at {pos} has {cnt}, wanted {[min(l, n) for l, n in zip(left, sizes)]} (ended before: {ended})")
                            return
                        ended = any(l < n for l, n in zip(left, sizes))
                        left = [l - c for l, c in zip(left, cnt)]
                        pos += total
                    if not ended and all(l >= n for l, n in zip(left, sizes)):
                        rec.fail("token-stops-early", f"{tag}: ends with {left} sequences left")
                        return
                    for n in {0, 1, len(out) // 2, len(out)}:
                        got = list(mk(n))
                        if got != out[n:]:
                            rec.fail("token-resume", f"{tag}: resuming at {n} gives {got}, not {out[n:]}")
                            return
                if streams[True] != streams[False]:
                    rec.fail("token-thread", f"{case}: the threaded stream {streams[True]} differs from {streams[False]}")
                    return
        finally:
            transformers.AutoTokenizer = saved


HARNESSES = [Sync(), Threaded(), Chunk()]


def prepare(tier):
    env.boot()
    import transformers  # noqa: F401
    transformers.AutoTokenizer
