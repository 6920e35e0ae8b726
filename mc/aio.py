"""A deterministic event loop: virtual time, no real selectable work, and external events delivered under control."""
import asyncio
import selectors


class _Sel(selectors.SelectSelector):
    """never blocks: waiting advances the virtual clock"""

    def __init__(self):
        super().__init__()
        self.loop = None

    def select(self, timeout=None):
        r = super().select(0)
        if r:
            return r
        if timeout is None:
            self.loop._idle(None)
        elif timeout > 0:
            self.loop._idle(timeout)
        return []


class Stuck(Exception):
    """nothing is left that could wake the waiting coroutine"""


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        sel = _Sel()
        super().__init__(sel)
        sel.loop = self
        self.vt = 1000.0
        self.on_idle = None  # called when nothing is ready: returns True if it made progress
        self.set_exception_handler(lambda *a: None)

    def time(self):
        return getattr(self, "vt", 0.0)

    def _idle(self, timeout):
        if self.on_idle is not None and self.on_idle():
            return
        if timeout is None:
            raise Stuck("every coroutine waits for something that never happens")
        self.vt += timeout + 1e-9


def run(coro, loop=None):
    own = loop is None
    loop = loop or VLoop()
    try:
        asyncio.set_event_loop(loop)
        return loop.run_until_complete(coro)
    finally:
        if own:
            try:
                for t in asyncio.all_tasks(loop):
                    t.cancel()
                loop.on_idle = None
                loop.run_until_complete(asyncio.sleep(0))
            except Exception:  # noqa: BLE001
                pass
            asyncio.set_event_loop(None)
            loop.close()


class Writer:
    """collects what is written"""

    def __init__(self):
        self.data = bytearray()
        self.closed = False
        self.drains = 0

    def write(self, b):
        assert not self.closed
        self.data += bytes(b)

    def writelines(self, bs):
        for b in bs:
            self.write(b)

    async def drain(self):
        self.drains += 1
        await asyncio.sleep(0)

    def is_closing(self):
        return self.closed

    def close(self):
        self.closed = True

    async def wait_closed(self):
        pass

    def can_write_eof(self):
        return True

    def write_eof(self):
        pass

    def get_extra_info(self, name, default=None):
        class S:
            def setsockopt(self, *a):
                pass

            def getpeername(self):
                return ("peer", 0)

        return S() if name == "socket" else default
