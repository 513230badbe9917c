"""`threading` for simulated processes (only what library code plausibly uses)."""
import threading as real

from .proc import Proxy


def make(proc):
    sched = proc.sched

    class Lock:
        def __init__(self):
            self.owner = None
            self.waiters = []

        def acquire(self, blocking=True, timeout=-1):
            sched.yield_("lock")
            while self.owner is not None:
                if not blocking:
                    return False
                self.waiters.append(sched.cur)
                ok = sched.block("threading.Lock", None if timeout < 0 else int(timeout * 1e9))
                if not ok and self.owner is not None:
                    if sched.cur in self.waiters:
                        self.waiters.remove(sched.cur)
                    return False
            self.owner = sched.cur
            return True

        def release(self):
            if self.owner is None:
                raise RuntimeError("release unlocked lock")
            self.owner = None
            if self.waiters:
                sched.wake(self.waiters.pop(0))
            sched.yield_("unlock")

        def locked(self):
            return self.owner is not None

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()

    class RLock(Lock):
        def __init__(self):
            Lock.__init__(self)
            self.n = 0

        def acquire(self, blocking=True, timeout=-1):
            if self.owner is sched.cur:
                self.n += 1
                return True
            r = Lock.acquire(self, blocking, timeout)
            if r:
                self.n = 1
            return r

        def release(self):
            if self.owner is not sched.cur:
                raise RuntimeError("cannot release un-acquired lock")
            self.n -= 1
            if not self.n:
                Lock.release(self)

    class Event:
        def __init__(self):
            self._f = False
            self._w = []

        def is_set(self):
            sched.yield_("event")
            return self._f

        def set(self):
            self._f = True
            for t in self._w:
                sched.wake(t)
            self._w = []
            sched.yield_("event")

        def clear(self):
            self._f = False

        def wait(self, timeout=None):
            sched.yield_("event")
            while not self._f:
                self._w.append(sched.cur)
                if not sched.block("threading.Event", None if timeout is None else int(timeout * 1e9)) and timeout is not None:
                    break
            return self._f

    class Thread:
        _n = 0

        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            Thread._n += 1
            self._target, self._args, self._kwargs = target, args, kwargs or {}
            self.name = name or f"Thread-{Thread._n}"
            self.daemon = bool(daemon)
            self._t = None
            self._join = []
            self._done = False

        def run(self):
            if self._target:
                self._target(*self._args, **self._kwargs)

        def start(self):
            def body():
                try:
                    self.run()
                except Exception as e:
                    import traceback

                    proc.world.on_crash(proc, e, "".join(traceback.format_exception(e))[-3000:])
                self._done = True
                for t in self._join:
                    sched.wake(t)

            self._t = sched.spawn(f"{proc.name}/{self.name}", proc, body)
            sched.yield_("thread")

        def is_alive(self):
            return self._t is not None and not self._done

        def join(self, timeout=None):
            while not self._done:
                self._join.append(sched.cur)
                if not sched.block("join", None if timeout is None else int(timeout * 1e9)) and timeout is not None:
                    return

    class Marker:
        daemon = False

        def __init__(self, name):
            self.name = name
            self.ident = hash(name) & 0xFFFF

    marks = {}

    def current_thread():
        n = sched.cur.name
        if n not in marks:
            marks[n] = Marker("MainThread" if n == proc.name else n)
        return marks[n]

    def main_thread():
        if proc.name not in marks:
            marks[proc.name] = Marker("MainThread")
        return marks[proc.name]

    over = dict(current_thread=current_thread, main_thread=main_thread, get_ident=lambda: current_thread().ident,
                Lock=Lock, RLock=RLock, Event=Event, Thread=Thread)
    return Proxy(real, **over)
