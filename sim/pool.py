"""Worker processes and links for the stand-ins of task schedulers (Dask, Ray)."""
import types

from . import proc as procmod


class Stub(types.ModuleType):
    """A module of the stand-in; whatever it lacks makes the run inconclusive instead of failing."""

    def __init__(self, sim, name, **attrs):
        types.ModuleType.__init__(self, name)
        self.__dict__["_sim"] = sim
        self.__dict__.update(attrs)

    def __getattr__(self, n):
        if not (n.startswith("__") and n.endswith("__")):
            self.__dict__["_sim"].unsupported.add(f"{self.__name__}.{n}")
        raise AttributeError(f"module {self.__name__!r} has no attribute {n!r}")


class Partial:
    """Base of the stand-in's objects: same for attributes."""

    def __getattr__(self, n):
        if not n.startswith("_"):
            SIM[0].unsupported.add(f"{type(self).__name__}.{n}")
        raise AttributeError(f"{type(self).__name__!r} object has no attribute {n!r}")


SIM = [None]


class Sim:
    def __init__(self, world, make_proc):
        SIM[0] = self
        self.world = world
        self.sched = world.sched
        self.make_proc = make_proc
        self.unsupported = set()
        self.last = {}
        self.ready = []
        self.idle = []
        self.workers = []
        self.n = 0
        self.closed = False

    def new_id(self):
        self.n += 1
        return self.n

    def delay(self, who):
        w = self.world
        if not w.p_lat:
            return w.lat_base
        v = self.sched.ch.value("lat", who, lambda r: int(w.lat_max ** r.random()) if r.random() < w.p_lat else None)
        if v:
            self.sched.count("msg_delay")
            return w.lat_base + v
        return w.lat_base

    def send(self, link, fn, fifo=True):
        """Deliver a message: fn runs in no process, at once."""
        s = self.sched
        t = s.now + self.delay(link)
        if fifo:
            t = self.last[link] = max(self.last.get(link, 0) + 1, t)
        s.at(t, fn)

    def add_worker(self, name, host, env):
        p = self.make_proc(name, host, dict(env))
        p.is_worker = True
        self.world.procs.append(p)
        self.workers.append(p)
        return p

    def start_loop(self, p, name=None):
        self.sched.spawn(name or p.name, p, lambda: self.loop(p))

    def loop(self, p):
        s = self.sched
        while not self.closed and p.exited is None:
            if not self.ready:
                self.idle.append(s.cur)
                s.block("worker idle")
                continue
            n = len(self.ready)
            i = s.ch.below("pick", p.name, 2 * n) if n > 1 else 0
            if i >= n:
                i = 0
            elif i:
                s.count("task_reorder")
            job = self.ready.pop(i)
            self.execute(job, p)
            job = None

    def enqueue(self, job):
        self.ready.append(job)
        idle, self.idle = self.idle, []
        for t in idle:
            self.sched.wake(t)
        self.sched.made_progress()

    def close(self):
        """The cluster goes away: nothing that is not done yet is done any more."""
        from .kernel import DONE

        self.closed = True
        s = self.sched
        for p in self.world.procs:
            if getattr(p, "is_worker", False) and p.exited is None:
                p.exited = ("ok", 0)
                for t in p.threads:
                    if t is not s.cur:
                        t.state = DONE
        self.ready = []

    def dumps(self, o):
        return self.sched.cur.proc.get_module("cloudpickle").dumps(o)

    def loads(self, b):
        return self.sched.cur.proc.get_module("cloudpickle").loads(b)


def install(p, mods):
    for n, m in mods.items():
        p.fakes[n] = m
        parent, _, leaf = n.rpartition(".")
        if parent and parent in mods:
            mods[parent].__dict__[leaf] = m


Proxy = procmod.Proxy
