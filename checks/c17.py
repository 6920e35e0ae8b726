"""C17: messages survive every fragmentation of the byte stream."""
import asyncio
import itertools
import math
import types

from mc import aio, env

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all fragmentations, truncation points and stalls of short message sequences on the real framing code over a real StreamReader with a virtual clock"
RULE = ("a case = a sequence of one or two messages of given kinds and sizes of headers; within it all fragmentations (all compositions up to 16 bytes, all fragmentations with up to three cuts and byte by byte beyond), every truncation point with the peer closing, "
        "and every truncation point with the peer stalling or dripping; states = (messages, cut points), transitions = fragments delivered, traces = receptions compared")
ASSUMPTIONS = ["an empty byte payload and no payload are the same message (documented: size zero means None)", "header sizes are large enough for the payload (8 and 16 bytes in the protocol)"]


class Obj:
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Obj) and self.x == o.x


def same(a, b):
    import numpy as np

    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a):
        return math.isnan(b)
    if isinstance(a, float):
        return type(a) is type(b) and a == b and math.copysign(1, a) == math.copysign(1, b)
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    if isinstance(a, types.FunctionType):
        return isinstance(b, types.FunctionType) and a(3) == b(3)
    return type(a) is type(b) and a == b


def values(kind):
    import numpy as np

    if kind == "int":
        return [0, 1, -1, 255, -(2**63), 2**63 - 1, 10]
    if kind == "str":
        return ["", "a", "job/1", "ü€𝄞", "\x00\n", "x" * 300]
    if kind == "bytes":
        return [None, b"\x00", b"\xff\x00\n", b"y" * 70000]
    if kind == "obj":
        return [None, (), {"a": [1, None]}, lambda x: x + 1, Obj("p"), False, "z" * 200]
    if kind == "float":
        return [0.0, -0.0, 1.5, -1e308, float("inf"), float("nan")]
    if kind == "array":
        return [None, np.zeros(0, np.float32), np.array(3), np.arange(6, dtype=np.int64).reshape(2, 3), np.array([np.nan, -0.0], np.float32), np.asfortranarray(np.arange(4.0).reshape(2, 2))]
    raise ValueError(kind)


KINDS = ("int", "str", "bytes", "obj", "float", "array")


def codec(kind, width):
    """(writer, reader) of network_utils for a message kind"""
    import mixtera.network.network_utils as nu

    return {
        "int": (lambda v, w: nu.write_int(v, width, w), lambda r, t: nu.read_int(width, r, timeout=t)),
        "str": (lambda v, w: nu.write_utf8_string(v, width, w), lambda r, t: nu.read_utf8_string(width, r, timeout=t)),
        "bytes": (lambda v, w: nu.write_bytes_obj(v, width, w), lambda r, t: nu.read_bytes_obj(width, r, timeout=t)),
        "obj": (lambda v, w: nu.write_pickeled_object(v, width, w), lambda r, t: nu.read_pickeled_object(width, r)),
        "float": (lambda v, w: nu.write_float(v, w), lambda r, t: nu.read_float(r, timeout=t)),
        "array": (lambda v, w: nu.write_numpy_array(v, width, width, w), lambda r, t: nu.read_numpy_array(width, width, r, timeout=t)),
    }[kind]


def encode(msgs):
    """bytes of each message"""
    out = []
    for kind, width, v in msgs:
        w = aio.Writer()
        aio.run(codec(kind, width)[0](v, w))
        out.append(bytes(w.data))
    return out


def receive(msgs, fragments, end, timeout=10.0, gap=0.0):
    """feed the fragments one after the other, each when the receiver waits; returns (outcomes, rest, elapsed)"""
    loop = aio.VLoop()
    asyncio.set_event_loop(loop)
    reader = asyncio.StreamReader(limit=2**16, loop=loop)

    class T:
        def pause_reading(self):
            pass

        def resume_reading(self):
            pass

        def is_closing(self):
            return False

    reader.set_transport(T())
    todo = list(fragments)
    state = {"eof": False}

    def feed():
        if todo:
            f = todo.pop(0)
            if gap:
                loop.call_later(gap, reader.feed_data, f)
            else:
                reader.feed_data(f)
            return True
        if end == "close" and not state["eof"]:
            state["eof"] = True
            if gap:
                loop.call_later(gap, reader.feed_eof)
            else:
                reader.feed_eof()
            return True
        return False

    pending = {"gap": False}

    def on_idle():
        if gap:
            # one delivery in flight at a time
            if pending["gap"]:
                return False
            if not todo and (end != "close" or state["eof"]):
                return False
            pending["gap"] = True
            f = todo.pop(0) if todo else None
            if f is None:
                state["eof"] = True

            def go():
                pending["gap"] = False
                if f is None:
                    reader.feed_eof()
                else:
                    reader.feed_data(f)

            loop.call_later(gap, go)
            return True
        return feed()

    loop.on_idle = on_idle
    out = []

    async def main():
        for kind, width, _ in msgs:
            t0 = loop.time()
            try:
                v = await codec(kind, width)[1](reader, timeout)
                out.append(("value", v, loop.time() - t0))
            except (asyncio.TimeoutError, TimeoutError):
                out.append(("timeout", None, loop.time() - t0))
                break
            except Exception as e:  # noqa: BLE001
                out.append(("error", type(e).__name__, loop.time() - t0))
                break

    try:
        loop.run_until_complete(main())
        rest = bytes(reader._buffer) + b"".join(todo)
    except aio.Stuck:
        out.append(("stuck", None, 0))
        rest = b""
    finally:
        for t in asyncio.all_tasks(loop):
            t.cancel()
        asyncio.set_event_loop(None)
        loop.close()
    return out, rest


def fragmentations(data, tier):
    n = len(data)
    if n <= (13 if tier == "quick" else 17):
        for mask in range(2 ** max(n - 1, 0)):
            cuts = [0] + [i for i in range(1, n) if mask >> (i - 1) & 1] + [n]
            yield [data[a:b] for a, b in zip(cuts, cuts[1:])]
        return
    yield [data]
    pts = list(range(1, n)) if n <= 80 else sorted(set(list(range(1, 40)) + [n - 2, n - 1, n // 2, 65535, 65536, 65537]) & set(range(1, n)))
    for k in (1, 2) if n > 40 else (1, 2, 3) if tier == "thorough" else (1, 2):
        for cuts in itertools.combinations(pts, k):
            c = [0] + list(cuts) + [n]
            yield [data[a:b] for a, b in zip(c, c[1:])]
    if n <= 2000:
        yield [data[i:i + 1] for i in range(n)]


def widths(kind, i):
    return (8, 16) if kind in ("int", "array", "float") else (8, 16, 1)


class Single:
    name = "single"
    cpu_limit = 200

    def cases(self, tier):
        for kind in KINDS:
            for i in range(len(values(kind))):
                for wd in widths(kind, i):
                    if kind == "float" and wd != 8:
                        continue
                    yield {"msgs": [[kind, wd, i]], "tier": tier}

    def run(self, case, rec):
        from mixtera.network import network_utils as nu  # noqa: F401

        msgs = [(k, w, values(k)[i]) for k, w, i in case["msgs"]]
        msgs = [(k, 1 if (k == "int" and v is not None and -128 <= v < 128 and w == 16) else w, v) for k, w, v in msgs]
        try:
            parts = encode(msgs)
        except OverflowError:
            return  # the one-byte header is too small for this payload
        if any(w == 1 and k != "int" and len(p) > 128 for (k, w, _), p in zip(msgs, parts)):
            return
        data = b"".join(parts)
        desc = [(k, w, repr(v)[:40]) for k, w, v in msgs]
        for fr in fragmentations(data, case["tier"]):
            out, rest = receive(msgs, fr, "open")
            rec.step(len(fr))
            rec.trace()
            rec.state((str(case["msgs"]), tuple(map(len, fr)) if len(fr) < 20 else len(fr)))
            bad = [o for o, (_, _, v) in zip(out, msgs) if o[0] != "value" or not same(v, o[1])]
            if bad or len(out) != len(msgs) or rest:
                rec.fail("changed-" + msgs[0][0], f"{desc} in fragments of {[len(f) for f in fr][:30]} bytes: received {[(o[0], repr(o[1])[:80]) for o in out]}, {len(rest)} bytes left")
                return
        # truncation: the peer closes, stalls or drips
        ends = list(itertools.accumulate(map(len, parts)))
        pts = range(len(data)) if len(data) <= 400 else sorted(set(list(range(0, 40)) + [len(data) - 1, 65536]))
        for cut in pts:
            done = sum(1 for e in ends if e <= cut)
            for split in ([cut], [1, cut - 1], [cut - 1, 1]) if 1 < cut else ([cut],):
                fr, p = [], 0
                for s in split:
                    if s:
                        fr.append(data[p:p + s])
                        p += s
                for end in ("close", "stall"):
                    out, _ = receive(msgs, fr, end)
                    rec.step(len(fr) + 1)
                    rec.trace()
                    rec.state((str(case["msgs"]), cut, end))
                    info = f"{desc}, peer {end}s after {cut} of {len(data)} bytes: {[(o[0], repr(o[1])[:80]) for o in out]}"
                    for i in range(done):
                        if i >= len(out) or out[i][0] != "value" or not same(msgs[i][2], out[i][1]):
                            rec.fail("lost-complete-message", info)
                            return
                    last = out[done] if done < len(out) else None
                    at_start = cut == (ends[done - 1] if done else 0)
                    if last is None or last[0] == "stuck":
                        rec.fail("waits-forever", info)
                        return
                    if end == "stall":
                        if last[0] == "value" or last[2] > 3 * 10.0 + 1:
                            rec.fail("stall-not-noticed", info + f" after {last[2]:.1f} s")
                            return
                    elif last[0] == "timeout":
                        rec.fail("close-not-noticed", info)
                        return
                    elif last[0] == "value" and not (at_start and last[1] is None and msgs[done][0] not in ("bytes", "obj")):
                        rec.fail("truncated-accepted", info)
                        return
        # dripping: every byte just in time for a per-read limit, the message as a whole late
        if 3 < len(data) <= 60 and msgs[0][0] != "obj":
            out, _ = receive(msgs, [data[i:i + 1] for i in range(len(data))], "open", timeout=2.0, gap=1.5)
            if any(o[2] > 3 * 2.0 + 2 for o in out) or (out[0][0] == "value" and len(parts[0]) >= 8):
                rec.fail("drip-not-limited", f"{desc} byte by byte every 1.5 s with a limit of 2 s: {[(o[0], repr(o[1])[:60], round(o[2], 1)) for o in out]}")
            out, _ = receive(msgs, [data[i:i + 1] for i in range(len(data))], "open", timeout=2.0, gap=1.9 / len(data))
            if any(o[0] != "value" for o in out):
                rec.fail("slow-but-in-time", f"{desc} byte by byte within the limit: {[(o[0], repr(o[1])[:60]) for o in out]}")


class Sequences(Single):
    """two messages: the second one must not be touched while reading the first"""

    name = "sequences"

    def cases(self, tier):
        small = {"int": (2, 8), "str": (2, 8), "bytes": (1, 8), "obj": (0, 8), "float": (2, 8), "array": (0, 8)}
        for a in KINDS:
            for b in KINDS:
                yield {"msgs": [[a, small[a][1], small[a][0]], [b, small[b][1], small[b][0]]], "tier": tier}
                if a not in ("int", "float", "array") and b not in ("int", "float", "array"):
                    yield {"msgs": [[a, 1, small[a][0]], [b, 1, small[b][0]]], "tier": tier}
        if tier == "thorough":
            for a in KINDS:
                for b in KINDS:
                    for i in range(min(3, len(values(a)))):
                        for j in range(min(3, len(values(b)))):
                            yield {"msgs": [[a, 8, i], [b, 8, j]], "tier": "quick"}


HARNESSES = [Single(), Sequences()]


def prepare(tier):
    env.boot()
