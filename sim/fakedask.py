"""Stand-in for Dask Distributed: client, scheduler, workers and actors.

What it keeps of the real thing: tasks run on any worker, in any order, once their dependencies are done; equal pure
calls share one key and one execution; a task nobody wants any more is forgotten, whether it ran or not; scatter of a
collection makes one future per element, under the keys of a dict if it is one; wait answers with sets and counts
failed tasks as done; submit takes its own keyword arguments out of the call's; calls of an actor run on its worker one
at a time, in the order in which the requests arrive; a pending actor future cannot be sent to another process.
"""
import hashlib
from collections import namedtuple

from . import pool
from .pool import Partial

X = None  # current DaskSim

DoneAndNotDoneFutures = namedtuple("DoneAndNotDoneFutures", ["done", "not_done"])


class CancelledError(Exception):
    pass


class Dep:
    def __init__(self, key):
        self.key = key


class Task:
    def __init__(self, key):
        self.key = key
        self.blob = None
        self.deps = []
        self.state = "waiting"  # waiting ready running memory erred
        self.wanted = set()
        self.dependents = set()
        self.value = {}  # process name -> live value
        self.data = None
        self.exc = None
        self.actor = False
        self.home = None


def pack(o, deps):
    t = type(o)
    if isinstance(o, Future):
        deps.append(o.key)
        return Dep(o.key)
    if t in (list, tuple, set, frozenset):
        return t([pack(x, deps) for x in o])
    if t is dict:
        return {k: pack(v, deps) for k, v in o.items()}
    return o


def unpack(o, get):
    t = type(o)
    if t is Dep:
        return get(o.key)
    if t in (list, tuple, set, frozenset):
        return t([unpack(x, get) for x in o])
    if t is dict:
        return {k: unpack(v, get) for k, v in o.items()}
    return o


def futures_of(o, out=None):
    out = [] if out is None else out
    if isinstance(o, Future):
        if o not in out:
            out.append(o)
    elif isinstance(o, (list, tuple, set, frozenset)):
        for x in o:
            futures_of(x, out)
    elif isinstance(o, dict):
        for x in o.values():
            futures_of(x, out)
    return out


class DaskSim(pool.Sim):
    def __init__(self, world, make_proc):
        global X
        X = self
        pool.Sim.__init__(self, world, make_proc)
        self.tasks = {}
        self.client = None
        self.actors = {}

    # ---- scheduler (messages; no process runs this) ----
    def on_submit(self, key, blob, deps, actor):
        t = self.tasks.get(key)
        if t is not None and (t.blob is not None or t.state == "memory"):
            t.wanted.add("client")
            if t.state in ("memory", "erred"):
                self.notify(t)
            return
        t = self.tasks[key] = Task(key)
        t.blob, t.actor = blob, actor
        t.deps = list(dict.fromkeys(deps))
        t.wanted.add("client")
        for d in t.deps:
            if d in self.tasks:
                self.tasks[d].dependents.add(key)
        self.advance(t)

    def on_data(self, key, value_blob):
        old = self.tasks.get(key)
        if old is not None and old.state == "memory":
            # the scheduler keeps what it has under this key
            old.wanted.add("client")
            return
        t = self.tasks[key] = Task(key)
        t.state, t.data = "memory", value_blob
        t.wanted.add("client")
        self.notify(t)

    def advance(self, t):
        if t.state != "waiting":
            return
        for d in t.deps:
            dt = self.tasks.get(d)
            if dt is None:
                return
            if dt.state == "erred":
                t.state, t.exc = "erred", dt.exc
                self.after(t)
                return
        if all(self.tasks[d].state == "memory" for d in t.deps):
            t.state = "ready"
            self.enqueue(t)

    def after(self, t):
        self.notify(t)
        for k in sorted(t.dependents):
            if k in self.tasks:
                self.advance(self.tasks[k])
        t.wanted.discard("fire-and-forget")
        for d in t.deps:
            self.forget(d)
        self.forget(t.key)

    def forget(self, key):
        t = self.tasks.get(key)
        if t is None or t.wanted or any(self.tasks[k].state in ("waiting", "ready", "running") for k in t.dependents if k in self.tasks):
            return
        if t.state in ("waiting", "ready"):
            self.sched.count("task_cancelled")
        if t in self.ready:
            self.ready.remove(t)
        del self.tasks[key]
        self.actors.pop(key, None)
        for d in t.deps:
            if d in self.tasks:
                self.tasks[d].dependents.discard(key)
                self.forget(d)

    def notify(self, t):
        if "client" not in t.wanted or self.client is None:
            return
        key, st, exc = t.key, t.state, t.exc
        self.send("s>c", lambda: self.client._on_done(key, "finished" if st == "memory" else "error", exc))

    def on_release(self, key):
        t = self.tasks.get(key)
        if t is not None:
            t.wanted.discard("client")
            self.forget(key)

    def on_result(self, t, state, exc):
        t.state, t.exc = state, exc
        self.sched.made_progress()
        if self.tasks.get(t.key) is t:
            self.after(t)

    # ---- workers ----
    def value_on(self, key, p):
        t = self.tasks.get(key)
        if t is None:
            raise CancelledError(key)
        if p.name not in t.value:
            if t.data is None:
                self.sched.block("transfer", self.delay(f"{t.home}>{p.name}"))
                src = t.value[t.home]
                t.data = self.dumps(src)
            t.value[p.name] = self.loads(t.data)
        return t.value[p.name]

    def execute(self, t, p):
        s = self.sched
        t.state = "running"
        self.world.sched.ev("dask-run", t.key[:40], p.name)
        try:
            fn, args, kw = self.loads(t.blob)
            get = lambda k: self.value_on(k, p)  # noqa: E731
            args, kw = unpack(args, get), unpack(kw, get)
            v = fn(*args, **kw)
            if t.actor:
                if self.tasks.get(t.key) is t:
                    self.actors[t.key] = ActorHome(v, p)
                v = Actor(type(v), p.name, t.key)
            t.home = p.name
            t.value[p.name] = v
            state, exc = "memory", None
        except Exception as e:
            try:
                exc = self.dumps(e)
            except Exception:
                exc = self.dumps(Exception(str(e)))
            state = "erred"
            e = None
        fn = args = kw = v = get = None
        s.yield_("task done")
        self.send(f"{p.name}>s", lambda: self.on_result(t, state, exc))


class ActorHome:
    """An actor on its worker and the thread that executes its calls."""

    def __init__(self, obj, p):
        self.obj, self.p = obj, p
        self.queue = []
        self.t = None

    def arrive(self, req):
        self.queue.append(req)
        s = X.sched
        if self.t is None:
            self.t = s.spawn(f"{self.p.name}.actor", self.p, self.loop)
        else:
            s.wake(self.t)

    def loop(self):
        s = X.sched
        while True:
            while not self.queue:
                s.block("actor idle")
            name, blob, fut = self.queue.pop(0)
            try:
                a, k = X.loads(blob)
                out = ("ok", X.dumps(getattr(self.obj, name)(*a, **k)))
            except Exception as e:
                try:
                    out = ("err", X.dumps(e))
                except Exception:
                    out = ("err", X.dumps(Exception(str(e))))
                e = None
            a = k = None
            X.send(f"{self.p.name}>a", lambda f=fut, o=out: f._set(o), fifo=False)


class ActorFuture(Partial):
    def __init__(self):
        self._out = None
        self._waiters = []

    def _set(self, out):
        self._out = out
        X.sched.made_progress()
        for t in self._waiters:
            X.sched.wake(t)
        self._waiters = []

    def done(self):
        X.sched.yield_("actor future")
        return self._out is not None

    def result(self, timeout=None):
        s = X.sched
        while self._out is None:
            self._waiters.append(s.cur)
            s.block("actor result")
        k, b = self._out
        v = X.loads(b)
        if k == "err":
            raise v
        return v

    def __reduce__(self):
        raise TypeError("cannot pickle '_asyncio.Future' object")


class Actor:
    def __init__(self, cls, address, key):
        self.__dict__.update(_cls=cls, _address=address, key=key, _future=None)

    def __reduce__(self):
        return (Actor, (self._cls, self._address, self.key))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        attr = getattr(self.__dict__["_cls"], name)
        key = self.__dict__["key"]
        if not callable(attr):
            X.unsupported.add("actor attributes")
            raise AttributeError(name)

        def call(*a, **k):
            s = X.sched
            s.yield_("actor call")
            f = ActorFuture()
            blob = X.dumps((a, k))

            def arrive():
                home = X.actors.get(key)
                if home is not None:
                    home.arrive((name, blob, f))  # otherwise the actor is gone and nobody ever answers

            X.send(f"{s.cur.proc.name}>actor", arrive, fifo=False)
            return f

        return call


class FState:
    def __init__(self):
        self.status = "pending"
        self.exc = None
        self.refs = 0
        self.waiters = []
        self.callbacks = []


class Future(Partial):
    def __init__(self, key, client=None):
        self.key = key
        self.client = client or X.client
        self._state = self.client.futures.setdefault(key, FState())
        self._state.refs += 1
        self._cleared = False

    def __del__(self):
        self.release()

    def release(self):
        if self.__dict__.get("_cleared", True):
            return
        self._cleared = True
        st = self._state
        st.refs -= 1
        if st.refs == 0 and not X.sched.finished and not X.closed:
            if self.client.futures.get(self.key) is st:
                del self.client.futures[self.key]
            key = self.key
            X.send("c>s", lambda: X.on_release(key))

    def __reduce__(self):
        return (Future, (self.key,))

    def __hash__(self):
        return id(self)

    @property
    def status(self):
        X.sched.yield_("status")
        return self._state.status

    @property
    def type(self):
        X.unsupported.add("Future.type")

    def done(self):
        return self.status != "pending"

    def cancelled(self):
        return self.status == "cancelled"

    def add_done_callback(self, fn):
        if self._state.status != "pending":
            fn(self)
        else:
            self._state.callbacks.append(lambda: fn(self))

    def _wait(self):
        s = X.sched
        s.yield_("future")
        while self._state.status == "pending":
            self._state.waiters.append(s.cur)
            s.block("future %s" % self.key)

    def exception(self, timeout=None):
        self._wait()
        return X.loads(self._state.exc) if self._state.status == "error" else None

    def result(self, timeout=None):
        if timeout is not None:
            X.unsupported.add("Future.result with a timeout")
        self._wait()
        if self._state.status == "error":
            raise X.loads(self._state.exc)
        if self._state.status == "cancelled":
            raise CancelledError(self.key)
        return self.client._fetch([self.key])[0]

    def __repr__(self):
        return f"<Future: {self._state.status}, key: {self.key}>"


def _name(f):
    return getattr(f, "__name__", type(f).__name__)


class Client(Partial):
    def __init__(self, address=None, n_workers=None, threads_per_worker=None, memory_limit=None, **kw):
        cfg = X.world.cfg
        self.futures = {}
        self.status = "running"
        self.address = address
        self.loop = None
        s = X.sched
        s.yield_("client")
        lay = cfg.get("layout")
        if address is None or lay is None:
            lay = [("127.0.0.1", threads_per_worker or 1)] * (n_workers or cfg["cpus"])
        X.info = {}
        for i, (host, nt) in enumerate(lay):
            p = X.add_worker(f"w{i}", host, s.cur.proc.environ)
            ip = host if "." in host else X.world.ip_of(host)
            X.info[f"tcp://{ip}:{4000 + i}"] = {"host": ip, "nthreads": nt, "name": i, "memory_limit": memory_limit}
            for j in range(nt):
                X.start_loop(p, f"w{i}" if not j else f"w{i}.{j}")
        X.client = self

    def _on_done(self, key, status, exc):
        st = self.futures.get(key)
        if st is None or st.status != "pending":
            return
        st.status, st.exc = status, exc
        X.sched.made_progress()
        for t in st.waiters:
            X.sched.wake(t)
        st.waiters = []
        for c in st.callbacks:
            c()

    def _fetch(self, keys):
        """Data of finished futures."""
        s = X.sched
        s.block("gather", X.delay("gather"))
        out = []
        for k in keys:
            t = X.tasks.get(k)
            if t is None:
                raise CancelledError(k)
            if t.data is None:
                t.data = X.dumps(t.value[t.home])
            v = X.loads(t.data)
            if isinstance(v, Actor):
                v.__dict__["_future"] = Future(k, self)
            out.append(v)
        return out

    def submit(self, func, *args, key=None, workers=None, resources=None, retries=None, priority=0, fifo_timeout="100 ms",
               allow_other_workers=False, actor=False, actors=False, pure=True, **kwargs):
        s = X.sched
        s.yield_("submit")
        if not callable(func):
            raise TypeError("First input to submit must be a callable function")
        actor = actor or actors
        if actor:
            pure = False
        deps = []
        blob = X.dumps((func, pack(args, deps), pack(kwargs, deps)))
        if key is None:
            key = _name(func) + "-" + (hashlib.blake2b(blob, digest_size=8).hexdigest() if pure else "%032d" % X.new_id())
            if pure and key in self.futures:
                return Future(key, self)
        f = Future(key, self)
        X.send("c>s", lambda: X.on_submit(key, blob, deps, actor))
        return f

    def map(self, func, *iterables, pure=True, **kw):
        return [self.submit(func, *a, pure=pure, **kw) for a in zip(*iterables)]

    def scatter(self, data, workers=None, broadcast=False, direct=None, hash=True, timeout=None, asynchronous=None):
        s = X.sched
        s.yield_("scatter")
        kind = type(data)
        if kind is range:
            data = list(data)
        if hasattr(data, "__next__"):
            raise TypeError("Dask no longer supports mapping over Iterators or Queues.")
        many = isinstance(data, (dict, list, tuple, set, frozenset))
        items = data if isinstance(data, dict) else None
        if items is None:
            vals = list(data) if many else [data]
            items = {}
            for v in vals:
                b = X.dumps(v)
                k = type(v).__name__ + "-" + (hashlib.blake2b(b, digest_size=8).hexdigest() if hash else "%032d" % X.new_id())
                items[k] = v
            names = list(items)
        fs = {}
        for k, v in items.items():
            b = X.dumps(v)
            fs[k] = Future(k, self)
            X.send("c>s", lambda k=k, b=b: X.on_data(k, b))
        s.block("scatter", X.delay("scatter"))
        if isinstance(data, dict):
            return fs
        if not many:
            return fs[names[0]]
        out = [fs[n] for n in names]
        return out if kind in (list, range) else kind(out)

    def gather(self, futures, errors="raise", direct=None, asynchronous=None):
        fs = futures_of(futures)
        for f in fs:
            f._wait()
            if f._state.status == "error" and errors == "raise":
                raise X.loads(f._state.exc)
        ok = [f for f in fs if f._state.status == "finished"]
        vals = dict(zip([f.key for f in ok], self._fetch([f.key for f in ok]))) if ok else {}

        def rec(o):
            if isinstance(o, Future):
                return vals.get(o.key)
            if type(o) in (list, tuple, set, frozenset):
                return type(o)([rec(x) for x in o])
            if type(o) is dict:
                return {k: rec(v) for k, v in o.items()}
            return o

        return rec(futures)

    def ncores(self, workers=None):
        return {a: i["nthreads"] for a, i in X.info.items()}

    nthreads = ncores

    def scheduler_info(self, **kw):
        return {"type": "Scheduler", "workers": {a: dict(i) for a, i in X.info.items()}}

    def cancel(self, *a, **k):
        X.unsupported.add("Client.cancel")

    def shutdown(self):
        X.sched.yield_("shutdown")
        X.client = None
        self.status = "closed"
        X.close()

    close = shutdown


def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    s = X.sched
    fs = futures_of(fs)
    if return_when not in ("ALL_COMPLETED", "FIRST_COMPLETED"):
        raise NotImplementedError("Only return_when='ALL_COMPLETED' and 'FIRST_COMPLETED' are supported")
    if isinstance(timeout, str):
        X.unsupported.add("wait with a timeout that is a string")
        timeout = None
    end = None if timeout is None else s.now + int(timeout * 1e9)
    s.yield_("wait")

    def open_():
        n = sum(1 for f in fs if f._state.status == "pending")
        return n if return_when == "ALL_COMPLETED" else bool(fs) and n == len(fs)

    while open_():
        for f in fs:
            if f._state.status == "pending":
                f._state.waiters.append(s.cur)
        if end is None:
            s.block("wait")
        elif end > s.now:
            s.block("wait", end - s.now, False)
        for f in fs:
            if s.cur in f._state.waiters:
                f._state.waiters.remove(s.cur)
        if end is not None and end <= s.now and open_():
            raise TimeoutError()
    if not fs and return_when == "FIRST_COMPLETED":
        s.block("wait for nothing")  # never ends
    # a set of futures is iterated in no particular order
    k = s.ch.below("set", "wait", 1 << 16)
    done = Bag([f for f in fs if f._state.status != "pending"], k)
    return DoneAndNotDoneFutures(done, Bag([f for f in fs if f._state.status == "pending"], k))


class Bag(set):
    """A set whose order of iteration the simulator chooses."""

    def __init__(self, items=(), k=0):
        set.__init__(self, items)
        self.order = []
        self.k = k
        self.extend(items)

    def extend(self, items):
        for x in items:
            if x not in self.order:
                self.k = (self.k * 1103515245 + 12345) & 0x7FFFFFFF
                self.order.insert(self.k % (len(self.order) + 1), x)

    def update(self, *others):
        for o in others:
            o = list(o)
            set.update(self, o)
            self.extend(o)

    __ior__ = lambda self, o: (self.update(o), self)[1]  # noqa: E731

    def union(self, *others):
        b = Bag(list(self), self.k)
        b.update(*others)
        return b

    def __or__(self, o):
        return self.union(o)

    def add(self, x):
        self.update([x])

    def __iter__(self):
        return iter([x for x in self.order if set.__contains__(self, x)])

    def pop(self):
        x = list(self)[0]
        self.discard(x)
        return x

    def discard(self, x):
        set.discard(self, x)
        if x in self.order:
            self.order.remove(x)

    def remove(self, x):
        set.remove(self, x)
        self.order.remove(x)

    def copy(self):
        return Bag(list(self), self.k)


class as_completed:
    def __init__(self, futures=None, with_results=False, raise_errors=True, **kw):
        self.fs = list(futures or [])
        self.with_results = with_results

    def __iter__(self):
        return self

    def add(self, f):
        self.fs.append(f)

    def __next__(self):
        if not self.fs:
            raise StopIteration
        done = list(wait(self.fs, return_when="FIRST_COMPLETED")[0])
        self.fs.remove(done[0])
        return (done[0], done[0].result()) if self.with_results else done[0]


def fire_and_forget(obj):
    for f in futures_of(obj):
        key = f.key
        X.sched.yield_("fire")

        def desire(key=key):
            t = X.tasks.get(key)
            if t is not None and t.state not in ("memory", "erred"):
                t.wanted.add("fire-and-forget")

        X.send("c>s", desire)


def get_client(address=None, timeout=None, resolve_address=True):
    X.sched.yield_("client")
    if getattr(X.sched.cur.proc, "is_worker", False):
        X.unsupported.add("get_client on a worker")
    if X.client is None:
        raise ValueError("No global client found and no address provided")
    return X.client


def get_ip(*a):
    return X.world.ip_of(X.sched.cur.proc.host) if "." not in X.sched.cur.proc.host else X.sched.cur.proc.host


def install(p, sim):
    names = dict(Client=Client, Future=Future, get_client=get_client, default_client=get_client, wait=wait, as_completed=as_completed,
                 fire_and_forget=fire_and_forget, futures_of=futures_of, FIRST_COMPLETED="FIRST_COMPLETED", ALL_COMPLETED="ALL_COMPLETED")
    mods = {
        "distributed": pool.Stub(sim, "distributed", __version__="2024.11.2", CancelledError=CancelledError, **names),
        "distributed.client": pool.Stub(sim, "distributed.client", **names),
        "distributed.utils": pool.Stub(sim, "distributed.utils", get_ip=get_ip),
        "distributed.actor": pool.Stub(sim, "distributed.actor", Actor=Actor, ActorFuture=ActorFuture, BaseActorFuture=ActorFuture),
    }
    mods["dask.distributed"] = mods["distributed"]
    pool.install(p, mods)
    return p
