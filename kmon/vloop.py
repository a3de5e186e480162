"""A virtual-time asyncio loop: timers cost nothing and order is deterministic.

Nothing about scheduling is changed (ready callbacks still run first-in
first-out); only waiting is free. A loop which has nothing left to wait for while
the main coroutine is unfinished raises `Deadlock` instead of hanging.
"""

import asyncio
import contextvars
import selectors


class Deadlock(Exception):
    """Nothing is scheduled and nothing can happen: the awaited work hangs."""


class Runaway(Exception):
    """The loop ran more iterations than the workload allows (livelock)."""


class _Selector(selectors.SelectSelector):
    loop = None

    def select(self, timeout=None):
        ready = super().select(0)
        loop = self.loop
        if ready or loop is None:
            return ready

        loop.iterations += 1
        if loop.iterations > loop.max_iterations:
            raise Runaway(f"more than {loop.max_iterations} loop iterations")

        if timeout is None:
            if loop.is_running() and not loop._stopping:
                raise Deadlock("nothing left to wait for")
            return ready

        if timeout > 0:
            loop.virtual_now += timeout
        return ready


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self, max_iterations: int = 200_000):
        self.virtual_now = 1000.0
        self.iterations = 0
        self.max_iterations = max_iterations
        selector = _Selector()
        super().__init__(selector)
        selector.loop = self
        self.unhandled = []
        self.set_exception_handler(lambda loop, context: self.unhandled.append(context))

    def time(self):
        return self.virtual_now


def run(coro_fn, max_iterations: int = 200_000):
    """Run `coro_fn()` on a fresh virtual loop; returns its result.

    Tasks still alive at the end are cancelled and given a chance to finish.
    """
    loop = VirtualLoop(max_iterations=max_iterations)
    previous = None
    try:
        asyncio.set_event_loop(loop)
        ctx = contextvars.Context()
        main = ctx.run(loop.create_task, coro_fn())
        try:
            return loop.run_until_complete(main)
        finally:
            if not main.done():
                main.cancel()
            pending = [task for task in asyncio.all_tasks(loop)]
            for task in pending:
                task.cancel()
            loop.max_iterations = loop.iterations + 20_000
            if pending:
                try:
                    loop.run_until_complete(
                        asyncio.gather(*pending, return_exceptions=True)
                    )
                except (Deadlock, Runaway):
                    pass
    finally:
        try:
            loop.run_until_complete(loop.shutdown_asyncgens())
        except (Deadlock, Runaway, RuntimeError):
            pass
        asyncio.set_event_loop(previous)
        loop.close()
