"""Stand-in for Ray: tasks, actors, object references and the object store.

What it keeps of the real thing: objects are immutable copies made when put, submitted or returned; references passed
directly as arguments are replaced by their objects, deeper ones are not; tasks run on any worker in any order once
their arguments exist; calls of an actor run one at a time in the order of submission; a task whose worker dies is
executed again as often as max_retries (3 unless set) allows and fails then; a failure is raised as an exception that is
both a RayTaskError and of the original type; wait wants distinct references and answers in the given order.
"""
from . import pool
from .pool import Partial

X = None


class RayError(Exception):
    pass


class RayTaskError(RayError):
    def __init__(self, cause):
        self.cause = cause
        self.args = (cause,)


class WorkerCrashedError(RayError):
    pass


class RayActorError(RayError):
    pass


class GetTimeoutError(RayError, TimeoutError):
    pass


def raised(exc):
    if isinstance(exc, RayError):
        return exc
    try:
        cls = type(f"RayTaskError({type(exc).__name__})", (RayTaskError, type(exc)), {"__init__": RayTaskError.__init__, "__reduce__": lambda s: (raised, (s.cause,)),
                                                                                    "__getattr__": lambda s, n: getattr(s.__dict__["cause"], n)})
        return cls(exc)
    except TypeError:
        return RayTaskError(exc)


class ObjectRef(Partial):
    def __init__(self, id):
        self._id = id

    def hex(self):
        return "%056x" % self._id

    def __eq__(self, o):
        return type(o) is ObjectRef and o._id == self._id

    def __hash__(self):
        return hash(self._id)

    def __reduce__(self):
        return (ObjectRef, (self._id,))

    def __repr__(self):
        return f"ObjectRef({self._id})"


class Obj:
    def __init__(self):
        self.state = None  # None | "ok" | "err"
        self.data = None
        self.waiters = []
        self.needs = []


class Job:
    def __init__(self, blob, deps, outs, num, retries, name):
        self.blob, self.deps, self.outs, self.num, self.retries, self.name = blob, deps, outs, num, retries, name
        self.left = 0
        self.opts = None


class Arg:
    def __init__(self, id):
        self.id = id


class RaySim(pool.Sim):
    def __init__(self, world, make_proc):
        global X
        X = self
        pool.Sim.__init__(self, world, make_proc)
        self.objs = {}
        self.up = False
        self.nactors = 0
        self.crashed = []

    def new_obj(self):
        i = self.new_id()
        self.objs[i] = Obj()
        return i

    def seal(self, i, state, data):
        o = self.objs[i]
        if o.state is not None:
            return
        o.state, o.data = state, data
        s = self.sched
        s.made_progress()
        for t in o.waiters:
            s.wake(t)
        o.waiters = []
        needs, o.needs = o.needs, []
        for f in needs:
            f()

    def pack(self, fn, args, kw, deps):
        def one(a):
            if type(a) is ObjectRef:
                deps.append(a._id)
                return Arg(a._id)
            return a

        return self.dumps((fn, [one(a) for a in args], {k: one(v) for k, v in kw.items()}))

    def when_ready(self, deps, fn):
        """Call fn once all objects exist."""
        deps = [d for d in dict.fromkeys(deps) if self.objs[d].state is None]
        left = [len(deps)]
        if not deps:
            return fn()

        def one():
            left[0] -= 1
            if not left[0]:
                fn()

        for d in deps:
            self.objs[d].needs.append(one)

    def value(self, i):
        o = self.objs[i]
        v = self.loads(o.data)
        if o.state == "err":
            raise raised(v)
        return v

    def execute(self, job, p, call=None):
        """Run a task (or an actor call) on p and store its results."""
        s = self.sched
        ran = False
        try:
            fn, args, kw = self.loads(job.blob)
            args = [self.value(a.id) if type(a) is Arg else a for a in args]
            kw = {k: (self.value(a.id) if type(a) is Arg else a) for k, a in kw.items()}
            ran = True
            s.cur.ray_opts = job.opts
            v = (call or fn)(*args, **kw)
            if job.num == 0:
                outs = []
            elif job.num == 1:
                outs = [("ok", self.dumps(v))]
            else:
                if len(v) != job.num:
                    raise ValueError(f"Task returned {len(v)} objects, but num_returns={job.num}.")
                outs = [("ok", self.dumps(x)) for x in v]
        except Exception as e:
            c = e.cause if isinstance(e, RayTaskError) else e
            try:
                b = self.dumps(c)
            except Exception:
                b = self.dumps(Exception(str(c)))
            outs = [("err", b)] * job.num
            e = c = None
        fn = args = kw = v = None
        if ran and call is None and job.token is not None and self.world.cfg.get("p_crash") and s.ch.chance("crash", p.name, self.world.cfg["p_crash"]):
            # the worker process dies before it has delivered the results; another one takes its place
            s.count("worker_crash")
            if job.retries > 0:
                job.retries -= 1
                self.send("retry", lambda: self.enqueue(job))
                return
            self.crashed.append(job.token)
            outs = [("err", self.dumps(WorkerCrashedError()))] * job.num
        s.yield_("task done")
        for i, (st, b) in zip(job.outs, outs):
            self.send(f"{p.name}>{i}", lambda i=i, st=st, b=b: self.seal(i, st, b), fifo=False)

    def submit(self, fn, args, kw, num, retries, opts):
        deps = []
        blob = self.pack(fn, args, kw, deps)
        outs = [self.new_obj() for _ in range(num)]
        job = Job(blob, deps, outs, num, retries, getattr(fn, "__name__", "f"))
        job.token = _token(args)
        job.opts = opts
        self.send("driver>raylet", lambda: self.when_ready(deps, lambda: self.enqueue(job)), fifo=False)
        return refs(outs)


def _token(args):
    import json

    try:
        return json.loads(args[0])["id"]
    except Exception:
        return None


def refs(outs):
    if len(outs) == 1:
        return ObjectRef(outs[0])
    return [ObjectRef(i) for i in outs] if outs else None


OPTIONS = {"num_cpus", "num_gpus", "num_returns", "resources", "max_retries", "name", "max_concurrency", "max_restarts", "max_task_retries", "memory",
           "runtime_env", "scheduling_strategy", "lifetime", "namespace", "concurrency_group", "retry_exceptions", "enable_task_events"}


def _opts(old, new):
    for k in new:
        if k not in OPTIONS:
            raise ValueError(f"Invalid option keyword {k}")
    o = dict(old)
    o.update(new)
    n = o.get("num_returns")
    if n is not None and not isinstance(n, int):
        X.unsupported.add("num_returns=%r" % (n,))
    return o


class RemoteFunction(Partial):
    def __init__(self, fn, opts):
        self._fn, self._opts = fn, opts

    def options(self, **kw):
        return RemoteFunction(self._fn, _opts(self._opts, kw))

    def __call__(self, *a, **k):
        raise TypeError("Remote functions cannot be called directly.")

    def remote(self, *args, **kw):
        X.sched.yield_("submit")
        n = self._opts.get("num_returns")
        r = self._opts.get("max_retries")
        return X.submit(self._fn, args, kw, 1 if n is None else n, 3 if r is None else r if r >= 0 else 10**9, self._opts)


class ActorClass(Partial):
    def __init__(self, cls, opts):
        self._cls, self._opts = cls, opts

    def options(self, **kw):
        return ActorClass(self._cls, _opts(self._opts, kw))

    def remote(self, *args, **kw):
        s = X.sched
        s.yield_("actor")
        X.nactors += 1
        a = ActorSim(X.nactors, s.cur.proc)
        X.actors_by_id[X.nactors] = a
        deps = []
        blob = X.pack(self._cls, args, kw, deps)
        job = Job(blob, deps, [], 0, 0, "init")
        job.opts = self._opts
        a.push(job, None)
        import inspect

        names = [n for n, _ in inspect.getmembers(self._cls, callable)]
        return ActorHandle(X.nactors, tuple(names))


class ActorSim:
    """The process of an actor."""

    def __init__(self, n, parent):
        self.p = X.add_worker(f"a{n}", parent.host, parent.environ)
        self.queue = []  # (job, method) in submission order
        self.obj = None
        self.dead = None
        self.t = None

    def push(self, job, method):
        job.go = False
        self.queue.append((job, method))

        def go():
            job.go = True
            self.kick()

        X.send("driver>actor", lambda: X.when_ready(job.deps, go), fifo=False)

    def kick(self):
        s = X.sched
        if self.t is None:
            self.t = s.spawn(self.p.name, self.p, self.loop)
        else:
            s.wake(self.t)

    def loop(self):
        s = X.sched
        while True:
            while not self.queue or not self.queue[0][0].go:
                s.block("actor idle")
            job, m = self.queue.pop(0)
            if m is None:
                try:
                    cls, args, kw = X.loads(job.blob)
                    args = [X.value(a.id) if type(a) is Arg else a for a in args]
                    kw = {k: (X.value(a.id) if type(a) is Arg else a) for k, a in kw.items()}
                    s.cur.ray_opts = job.opts
                    self.obj = cls(*args, **kw)
                except Exception as e:
                    self.dead = RayActorError(str(e))
                    e = None
                cls = args = kw = None
            elif self.dead is not None:
                for i in job.outs:
                    X.seal(i, "err", X.dumps(self.dead))
            else:
                X.execute(job, self.p, call=getattr(self.obj, m))
            job = None


class ActorMethod(Partial):
    def __init__(self, ident, name, opts=None):
        self._ident, self._name, self._opts = ident, name, opts or {}

    def options(self, **kw):
        return ActorMethod(self._ident, self._name, _opts(self._opts, kw))

    def remote(self, *args, **kw):
        X.sched.yield_("acall")
        deps = []
        blob = X.pack(None, args, kw, deps)
        n = self._opts.get("num_returns")
        n = 1 if n is None else n
        outs = [X.new_obj() for _ in range(n)]
        X.actors_by_id[self._ident].push(Job(blob, deps, outs, n, 0, self._name), self._name)
        return refs(outs)


class ActorHandle:
    def __init__(self, ident, names):
        self.__dict__.update(_ident=ident, _names=names)

    def __reduce__(self):
        return (ActorHandle, (self._ident, self._names))

    def __getattr__(self, n):
        if n.startswith("__") or n not in self.__dict__["_names"]:
            raise AttributeError(f"'ActorHandle' object has no attribute {n!r}")
        return ActorMethod(self.__dict__["_ident"], n)


def remote(*args, **kw):
    def make(x, opts):
        return ActorClass(x, opts) if isinstance(x, type) else RemoteFunction(x, opts)

    if len(args) == 1 and not kw and callable(args[0]):
        return make(args[0], {})
    return lambda x: make(x, _opts({}, kw))


def put(v, **kw):
    X.sched.yield_("put")
    if isinstance(v, ObjectRef):
        raise TypeError("Calling 'put' on an ray.ObjectRef is not allowed.")
    i = X.new_obj()
    X.seal(i, "ok", X.dumps(v))
    return ObjectRef(i)


def get(r, timeout=None):
    s = X.sched
    s.yield_("get")
    end = None if timeout is None else s.now + int(timeout * 1e9)
    single = isinstance(r, ObjectRef)
    if not single and not isinstance(r, (list, tuple)):
        raise ValueError(f"Invalid type of object refs, {type(r)}, is given.")
    ids = [r._id] if single else [x._id for x in r]
    for i in ids:
        o = X.objs[i]
        while o.state is None:
            o.waiters.append(s.cur)
            if end is None:
                s.block("ray.get %d" % i)
                continue
            if end <= s.now:
                raise GetTimeoutError("Get timed out: some object(s) not ready.")
            s.block("ray.get %d" % i, end - s.now, False)
    s.block("pull", X.delay("pull"))
    vals = [X.value(i) for i in ids]
    return vals[0] if single else vals


def wait(rs, *, num_returns=1, timeout=None, fetch_local=True):
    s = X.sched
    s.yield_("wait")
    if isinstance(rs, ObjectRef) or not isinstance(rs, list):
        raise TypeError(f"wait() expected a list of ray.ObjectRef, got {type(rs)}")
    for x in rs:
        if not isinstance(x, ObjectRef):
            raise TypeError("wait() expected a list of ray.ObjectRef")
    if not rs:
        return [], []
    if len(set(rs)) != len(rs):
        raise ValueError("Wait requires a list of unique object refs.")
    if num_returns <= 0:
        raise ValueError("Invalid number of objects to return %d." % num_returns)
    if num_returns > len(rs):
        raise ValueError("num_returns cannot be greater than the number of ray.ObjectRef provided to ray.wait.")
    end = None if timeout is None else s.now + int(timeout * 1e9)

    def ready():
        return [x for x in rs if X.objs[x._id].state is not None]

    while len(ready()) < num_returns and (end is None or end > s.now):
        for x in rs:
            X.objs[x._id].waiters.append(s.cur)
        if end is None:
            s.block("ray.wait")
        else:
            s.block("ray.wait", end - s.now, False)
        for x in rs:
            w = X.objs[x._id].waiters
            if s.cur in w:
                w.remove(s.cur)
    ok = ready()[:num_returns]
    return ok, [x for x in rs if x not in ok]


def init(*a, num_cpus=None, **kw):
    s = X.sched
    s.yield_("init")
    if X.up:
        return
    X.up = True
    X.init_args = dict(kw, num_cpus=num_cpus)
    n = num_cpus or X.world.cfg["cpus"]
    X.ncpu = n
    hosts = [s.cur.proc.host] * n
    lay = X.world.cfg.get("layout")
    if lay and kw.get("address"):
        hosts = [h for h, k in lay for _ in range(k)]
    for i, h in enumerate(hosts):
        p = X.add_worker(f"w{i}", h, s.cur.proc.environ)
        X.start_loop(p)


def shutdown(*a, **k):
    X.sched.yield_("shutdown")
    if X.up:
        X.up = False
        X.close()


def is_initialized():
    return X.up


def nodes():
    lay = X.world.cfg.get("layout")
    if lay:
        return [{"NodeManagerAddress": X.world.ip_of(h), "Alive": True, "Resources": {"CPU": float(n)} if n else {}} for h, n in lay]
    return [{"NodeManagerAddress": get_node_ip_address(), "Alive": True, "Resources": {"CPU": float(X.ncpu), "memory": 1e9}}]


def cluster_resources():
    return {"CPU": float(sum(n["Resources"].get("CPU", 0) for n in nodes())), "memory": 1e9}


def get_node_ip_address(*a):
    return X.world.ip_of(X.sched.cur.proc.host)


def install(p, sim):
    sim.actors_by_id = getattr(sim, "actors_by_id", {})
    exc = pool.Stub(sim, "ray.exceptions", RayError=RayError, RayTaskError=RayTaskError, WorkerCrashedError=WorkerCrashedError, RayActorError=RayActorError,
                    GetTimeoutError=GetTimeoutError)
    act = pool.Stub(sim, "ray.actor", ActorHandle=ActorHandle, ActorClass=ActorClass, ActorMethod=ActorMethod)
    mods = {
        "ray": pool.Stub(sim, "ray", __version__="2.55.1", remote=remote, put=put, get=get, wait=wait, init=init, shutdown=shutdown,
                         is_initialized=is_initialized, nodes=nodes, cluster_resources=cluster_resources, ObjectRef=ObjectRef),
        "ray.util": pool.Stub(sim, "ray.util", get_node_ip_address=get_node_ip_address),
        "ray.exceptions": exc,
        "ray.actor": act,
        "ray.remote_function": pool.Stub(sim, "ray.remote_function", RemoteFunction=RemoteFunction),
    }
    pool.install(p, mods)
    return p
