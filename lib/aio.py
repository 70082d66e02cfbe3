"""An event loop that is run one iteration at a time, in virtual time"""
import asyncio
import contextlib

from . import clock
from .harness import Violation

MAX_TICKS = 50_000


class Loop:
    def __init__(self):
        self.errors = []
        self.ticks = 0
        self.loop = None
        self.renew()

    def renew(self):
        """Continue with another loop, like when asyncio.run is called again"""
        if self.loop:
            self.loop.close()
        self.loop = asyncio.SelectorEventLoop()
        self.loop.set_exception_handler(self.on_error)
        asyncio.set_event_loop(self.loop)

    def on_error(self, loop, context):
        self.errors.append(context)

    def tick(self):
        """Run a single iteration of the event loop"""
        self.ticks += 1
        if self.ticks > MAX_TICKS:
            raise Violation("no-progress", f"not idle after {MAX_TICKS} iterations")
        self.loop.call_soon(self.loop.stop)
        self.loop.run_forever()
        if self.errors:
            context = self.errors.pop(0)
            exc = context.get("exception")
            if exc is not None:
                raise exc
            raise Violation("event-loop", context.get("message", ""))

    def idle(self):
        return not self.loop._ready and not self.loop._scheduled

    def settle(self, each=None):
        n = 0
        while not self.idle():
            self.tick()
            n += 1
            if each:
                each()
        return n

    def close(self):
        self.loop.close()
        asyncio.set_event_loop(None)


@contextlib.contextmanager
def loop(rng, rate=None):
    """Context with a loop in which units of work take long with the given probability"""
    if rate is None:
        rate = rng.choice([1, 1, 0.5, 0.3, 0.1, 0.02])
    result = Loop()
    result.rate = rate
    clock.start(lambda: 20_000_000 if rng.random() < rate else 0)
    try:
        yield result
    finally:
        clock.stop()
        result.close()
