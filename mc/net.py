"""An in-memory network under virtual time: the real server and the real client code, no sockets.

Everything runs on one event loop (class Net): client calls (asyncio.run) are executed on the loop the server lives on.
Connections are pairs of asyncio.StreamReaders; every write is recorded, and faults can be injected per connection.
"""
import asyncio
import time

from mc import aio, sched


class Fault:
    """what happens to one connection: refuse it, or cut a direction after so many writes (and bytes of the next one)"""

    def __init__(self, refuse=False, cut_request=None, cut_response=None):
        self.refuse, self.cut_request, self.cut_response = refuse, cut_request, cut_response


class Transport:
    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def is_closing(self):
        return False


class Side:
    """one direction's writer: feeds the reader of the other side"""

    def __init__(self, net, peer, log, cut=None, on_cut=None):
        self.net, self.peer, self.log = net, peer, log
        self.cut, self.on_cut = cut, on_cut
        self.closed = False
        self.sent = 0

    def write(self, b):
        b = bytes(b)
        self.log.append(b)
        if self.closed:
            return
        if self.cut is not None:
            room = self.cut - self.sent
            if len(b) >= room:
                b = b[:room]
                if b:
                    self.peer.feed_data(b)
                self.sent += len(b)
                self.drop()
                return
        self.sent += len(b)
        if b:
            self.peer.feed_data(b)

    def drop(self):
        if not self.closed:
            self.closed = True
            self.peer.feed_eof()
            if self.on_cut is not None:
                self.on_cut()

    def writelines(self, bs):
        for b in bs:
            self.write(b)

    async def drain(self):
        pass

    def is_closing(self):
        return self.closed

    def close(self):
        if not self.closed:
            self.closed = True
            self.peer.feed_eof()

    async def wait_closed(self):
        pass

    def can_write_eof(self):
        return True

    def write_eof(self):
        self.close()

    def get_extra_info(self, name, default=None):
        class S:
            def setsockopt(self, *a):
                pass

            def getsockname(self):
                return ("server", 1)

            def getpeername(self):
                return ("client", 1)

        return S() if name == "socket" else ("peer", 1) if name == "peername" else default


class Listener:
    def __init__(self, net, cb):
        self.net = net
        net.accept = cb

        class S:
            def getsockname(self):
                return ("server", 1)

            def setsockopt(self, *a):
                pass

        self.sockets = [S()]

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.close()

    async def serve_forever(self):
        await asyncio.get_running_loop().create_future()

    async def start_serving(self):
        pass

    def close(self):
        self.net.accept = None

    async def wait_closed(self):
        pass

    def is_serving(self):
        return self.net.accept is not None


class Loop(aio.VLoop):
    """thread-pool work is done `delay` later, on the loop's own thread"""

    delay = 0.3

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()

        def go():
            if fut.cancelled():
                return
            try:
                r = func(*args)
            except BaseException as e:  # noqa: BLE001
                if isinstance(e, (KeyboardInterrupt, SystemExit)) or type(e).__name__ == "Hang":
                    raise
                fut.set_exception(e)
            else:
                fut.set_result(r)

        self.call_later(self.delay, go)
        return fut


class Net:
    def __init__(self):
        self.loop = Loop()
        self.accept = None
        self.plan = []  # faults of the next connections
        self.conns = []  # (request writes, response writes) of every connection
        self.default = None
        self.tasks = []

    # -- clock
    def now(self):
        return self.loop.vt

    def sleep(self, dt):
        if self.loop.is_running():
            self.loop.vt += max(0.0, dt)
        else:
            self.run(asyncio.sleep(dt))

    def run(self, coro, **kw):
        return self.loop.run_until_complete(coro)

    # -- network
    async def open_connection(self, host=None, port=None, **kw):
        f = self.plan.pop(0) if self.plan else self.default
        req, resp = [], []
        self.conns.append((req, resp))
        if self.accept is None or (f is not None and f.refuse):
            raise ConnectionRefusedError("refused")
        cr, sr = asyncio.StreamReader(limit=2**26), asyncio.StreamReader(limit=2**26)
        cr.set_transport(Transport())
        sr.set_transport(Transport())
        cw = Side(self, sr, req, None if f is None else f.cut_request)
        sw = Side(self, cr, resp, None if f is None else f.cut_response)
        cw.on_cut = sw.close  # the whole connection is gone
        sw.on_cut = cw.close
        t = self.loop.create_task(self.accept(sr, sw))
        self.tasks.append(t)
        return cr, cw

    async def start_server(self, cb, *a, **k):
        return Listener(self, cb)

    def serve(self, server):
        t = self.loop.create_task(server._run_async())
        self.tasks.append(t)
        for _ in range(5):
            self.run(asyncio.sleep(0))
        return t

    def __enter__(self):
        self.saved = (asyncio.run, asyncio.open_connection, asyncio.start_server, time.sleep, time.time)
        asyncio.run = self.run
        asyncio.open_connection = self.open_connection
        asyncio.start_server = self.start_server
        time.sleep = self.sleep
        time.time = self.now
        asyncio.set_event_loop(self.loop)
        return self

    def __exit__(self, *a):
        try:
            for t in asyncio.all_tasks(self.loop):
                t.cancel()
            self.loop.on_idle = None
            for _ in range(3):
                self.loop.run_until_complete(asyncio.sleep(0))
        except BaseException as e:  # noqa: BLE001
            if not isinstance(e, Exception):
                raise
        finally:
            asyncio.run, asyncio.open_connection, asyncio.start_server, time.sleep, time.time = self.saved
            asyncio.set_event_loop(None)
            self.loop.close()
        return False


# ---------------------------------------------------------------- several clients under the controlled scheduler ----
class SLoop(aio.VLoop):
    """an event loop inside a controlled task: waiting gives up control, the clock is the scheduler's"""

    points = False  # a scheduling point at every iteration

    def time(self):
        s = sched.current()
        return s.now if s is not None else 1000.0

    def _idle(self, timeout):
        sched._pt(lambda: bool(self._ready), timeout)

    def _run_once(self):
        if self.points and self._ready:
            sched._pt()
        super()._run_once()

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()

        def work():
            try:
                r = func(*args)
            except Exception as e:  # noqa: BLE001
                self.call_soon(lambda e=e: fut.cancelled() or fut.set_exception(e))
            else:
                self.call_soon(lambda: fut.cancelled() or fut.set_result(r))

        sched.current().spawn(work, "worker")
        return fut


class SSide(Side):
    """delivers through the other loop's queue; one scheduling point inside the request if asked for"""

    loop = None
    split = None
    writes = 0

    def write(self, b):
        b = bytes(b)
        if self.closed:
            return
        if self.split is not None and self.writes == self.split:
            sched._pt(lambda: False, 1.0)  # the rest arrives when nothing else happens any more
        self.writes += 1
        self.sent += len(b)
        if b:
            self.loop.call_soon(self.peer.feed_data, b)

    def close(self):
        if not self.closed:
            self.closed = True
            self.loop.call_soon(self.peer.feed_eof)

    drop = close


class Quiet(sched.Chooser):
    """decisions of the phases that are not explored are not choices"""

    def __init__(self, inner):
        self.inner = inner
        self.on = False
        self.log = inner.log

    def choose(self, n, cost=0):
        # every deviation from the default order counts
        return self.inner.choose(n, 1) if self.on else 0


class SNet:
    def __init__(self, chooser, max_steps=20000):
        self.chooser = Quiet(chooser)
        self.sc = sched.Scheduler(self.chooser, max_steps)
        self.accept = None
        self.sloop = SLoop()
        self.splits = {}  # (task name, connection number of that task) -> write

    def run(self, coro, **kw):
        loop = SLoop()
        try:
            asyncio.set_event_loop(loop)
            return loop.run_until_complete(coro)
        finally:
            asyncio.set_event_loop(None)
            loop.close()

    async def open_connection(self, host=None, port=None, **kw):
        mine = asyncio.get_running_loop()
        t = sched._tls.task
        if self.accept is None:
            raise ConnectionRefusedError("refused")
        cr, sr = asyncio.StreamReader(limit=2**26, loop=mine), asyncio.StreamReader(limit=2**26, loop=self.sloop)
        cr.set_transport(Transport())
        sr.set_transport(Transport())
        cw, sw = SSide(self, sr, []), SSide(self, cr, [])
        cw.loop, sw.loop = self.sloop, mine
        k = self.counts.get(t.name, 0)
        self.counts[t.name] = k + 1
        cw.split = self.splits.get((t.name, k))
        sched._pt()
        self.sloop.call_soon(lambda: self.sloop.create_task(self.accept(sr, sw)))
        return cr, cw

    async def start_server(self, cb, *a, **k):
        return Listener(self, cb)

    def go(self, server_factory, before, clients, after, patched=()):
        """before(ctx), then every client concurrently, then after(ctx); server_factory() makes the server"""
        self.counts = {}
        done = []
        names = []

        def serve():
            asyncio.set_event_loop(self.sloop)
            try:
                self.sloop.run_until_complete(self.server._run_async())
            finally:
                asyncio.set_event_loop(None)

        def main():
            sched._pt(lambda: self.accept is not None)
            before()
            self.counts.clear()
            ts = [self.sc.spawn(f, n) for n, f in clients]
            names.extend(ts)
            self.sloop.points = True
            self.chooser.on = True
            sched._pt(lambda: all(t.done for t in ts))
            self.chooser.on = False
            self.sloop.points = False
            after()

        saved = (asyncio.run, asyncio.open_connection, asyncio.start_server)
        with sched.patched(patched, extra=[]):
            asyncio.run, asyncio.open_connection, asyncio.start_server = self.run, self.open_connection, self.start_server
            try:
                self.server = server_factory()
                s = self.sc.spawn(serve, "server")
                s.daemon = True
                m = self.sc.spawn(main, "main")
                self.sc.run()
                if m.exc is not None:
                    raise m.exc
                for t in names:
                    if t.exc is not None:
                        raise t.exc
            finally:
                asyncio.run, asyncio.open_connection, asyncio.start_server = saved
                try:
                    self.sloop.close()
                except Exception:  # noqa: BLE001
                    pass
