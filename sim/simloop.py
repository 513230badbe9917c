"""asyncio event loop on the simulated scheduler (virtual time, executor = simulated threads)."""
import asyncio
import asyncio.base_events
import asyncio.events
import functools

CUR = {"world": None}


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        loop = self.loop
        s = loop._sched
        if loop._woken or timeout == 0:
            loop._woken = False
            s.yield_("loop")
            return []
        loop._thread = s.cur
        if timeout is not None and timeout < 0:
            timeout = 0
        loop._waiting = True
        s.block("event-loop", None if timeout is None else max(1000, int(timeout * 1e9)))
        loop._waiting = False
        loop._woken = False
        return []

    def close(self):
        pass


class SimLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._sched = CUR["world"].sched
        self._proc = self._sched.cur.proc
        self._selector = _Selector(self)
        self._woken = False
        self._waiting = False
        self._thread = None
        self._idle_pool = []
        self._pool_n = 0
        self._busy = 0
        self._drain = None
        self._clock_resolution = 1e-9

    def time(self):
        return self._sched.now / 1e9

    def _process_events(self, ev):
        pass

    def _write_to_self(self):
        self._woken = True
        if self._waiting and self._thread is not None:
            self._sched.wake(self._thread)

    def run_in_executor(self, executor, func, *args):
        self._check_closed()
        fut = self.create_future()
        job = (fut, functools.partial(func, *args) if args else func)
        self._busy += 1
        if self._idle_pool:
            w = self._idle_pool.pop()
            w["job"] = job
            self._sched.wake(w["t"])
        else:
            w = {"job": job, "quit": False}
            self._pool_n += 1
            w["t"] = self._sched.spawn(f"{self._proc.name}/x{self._pool_n}", self._proc, lambda: self._worker(w))
        self._sched.yield_("executor")
        return fut

    def _worker(self, w):
        s = self._sched
        while True:
            fut, fn = w["job"]
            w["job"] = None
            res = exc = None
            try:
                res = fn()
            except BaseException as e:
                if type(e).__name__ == "SimStop":
                    raise
                exc = e
            fn = None
            self._busy -= 1

            def done(fut=fut, res=res, exc=exc):
                if fut.cancelled():
                    return
                if exc is not None:
                    fut.set_exception(exc)
                else:
                    fut.set_result(res)

            if not self.is_closed():
                self.call_soon_threadsafe(done)
            fut = res = exc = done = None
            if self._drain is not None:
                return
            self._idle_pool.append(w)
            while w["job"] is None and not w["quit"]:
                s.block("executor-idle")
            if w["quit"]:
                return

    def _raw_call_threadsafe(self, cb, *args, context=None):
        return super().call_soon_threadsafe(cb, *args, context=context)

    async def shutdown_default_executor(self, timeout=None):
        self._drain = True
        for w in self._idle_pool:
            w["quit"] = True
            self._sched.wake(w["t"])
        self._idle_pool = []
        while self._busy > 0:
            await asyncio.sleep(0.001)

    def close(self):
        if self.is_running():
            raise RuntimeError("Cannot close a running event loop")
        super().close()
        if not self._sched.finished:
            for w in self._idle_pool:
                w["quit"] = True
                self._sched.wake(w["t"])
            self._idle_pool = []

    def default_exception_handler(self, context):
        e = context.get("exception")
        if e is not None:
            self._sched.ev("asyncio-unhandled", repr(e)[:100])
            CUR["world"].on_async_error(self._proc, e, context.get("message", ""))


class SimPolicy(asyncio.events.BaseDefaultEventLoopPolicy):
    def _loop_factory(self):
        return SimLoop()

    def new_event_loop(self):
        return SimLoop()


def install(world):
    CUR["world"] = world
    asyncio.set_event_loop_policy(SimPolicy())
