"""`multiprocessing` for simulated processes: Process (fork), queues, managers and their proxies.

Child processes are separate simulated processes with their own copies of all modules; forking copies the data kept
in the repository's modules and classes.  Queues deliver in order after a chosen delay.  A manager is a process of its
own that serves every client thread in a thread of its own; it goes away when its manager object is collected.
"""
import pickle
import queue as real_queue
import types
import weakref
from enum import EnumMeta

from . import proc as procmod
from .kernel import BLOCKED, DONE, RUNNABLE, US

X = None  # current MpSim


class RemoteError(Exception):
    def __str__(self):
        return "\n" + "-" * 75 + "\n" + str(self.args[0]) + "-" * 75


class MpSim:
    def __init__(self, world, make_proc):
        global X
        X = self
        self.world = world
        self.sched = world.sched
        self.make_proc = make_proc
        self.objs = {}
        self.n = 0
        self.nproc = 0
        self.servers = []

    def reg(self, o):
        self.n += 1
        self.objs[self.n] = o
        return self.n

    def delay(self, who):
        w = self.world
        ch = self.sched.ch
        if not w.p_lat:
            return w.lat_base
        v = ch.value("lat", who, lambda r: int(w.lat_max ** r.random()) if r.random() < w.p_lat else None)
        if v:
            self.sched.count("msg_delay")
            return w.lat_base + v
        return w.lat_base

    def changed(self):
        s = self.sched
        s.made_progress()
        for p in self.world.procs:
            s.nudge(p)

    def kill(self, p, code):
        """End a process from outside: none of its threads runs again."""
        if p.exited is not None:
            return
        p.exited = ("killed", code)
        self.sched.ev("kill", p.name)
        for t in p.threads:
            if t is not self.sched.cur:
                t.state = DONE
        self.world.on_exit(p)


def lookup(i):
    return X.objs[i]


# ---- fork ---------------------------------------------------------------------------
def _plain(v):
    return not isinstance(v, (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, classmethod, staticmethod, property,
                              types.MemberDescriptorType, types.GetSetDescriptorType)) and not (hasattr(type(v), "__get__"))


def snapshot(p):
    out = []
    for name, m in list(p.sysmods.items()):
        if not name.startswith("unidist") or not isinstance(m, types.ModuleType):
            continue
        for k, v in list(m.__dict__.items()):
            if k.startswith("__") and k.endswith("__"):
                continue
            if isinstance(v, type):
                if v.__module__ != name or isinstance(v, EnumMeta):
                    continue
                for a, b in list(v.__dict__.items()):
                    if not (a.startswith("__") and a.endswith("__")) and _plain(b) and not a.startswith("_abc"):
                        out.append((name, v.__name__, a, b))
            elif _plain(v):
                out.append((name, None, k, v))
    return out


def freeze(p, main):
    """State a forked child starts with."""
    dumps = p.get_module("cloudpickle").dumps
    items = snapshot(p)
    try:
        return dumps((main, items))
    except Exception:
        good = []
        for it in items:
            try:
                dumps(it)
                good.append(it)
            except Exception:
                pass
        return dumps((main, good))


def thaw(p, blob, mods):
    for n in mods:
        p.get_module(n)
    main, items = p.get_module("cloudpickle").loads(blob)
    for name, cls, k, v in items:
        m = p.sysmods.get(name)
        if m is None:
            continue
        t = m if cls is None else getattr(m, cls, None)
        try:
            setattr(t, k, v)
        except Exception:
            pass
    return main


def fork(parent, name, main, body, daemon):
    """Start a simulated child of `parent`; `body(main)` runs in it."""
    if getattr(parent, "daemonic", False):
        raise AssertionError("daemonic processes are not allowed to have children")
    s = X.sched
    X.nproc += 1
    child = X.make_proc(f"{name}{X.nproc}", parent.host, dict(parent.environ))
    child.daemonic = daemon
    child.parent = parent
    X.world.procs.append(child)
    mods = [n for n in parent.sysmods if n.partition(".")[0] in ("unidist",)]
    blob = freeze(parent, main)
    child.fork_body = body

    def run():
        status = ("ok", 0)
        try:
            body(thaw(child, blob, mods))
        except SystemExit:
            pass
        except BaseException as e:
            import traceback

            status = ("exc", "".join(traceback.format_exception(e))[-3000:])
            X.world.on_crash(child, e, status[1])
            e = None
        child.exited = status
        s.ev("exit", child.name, status[0])
        X.world.on_exit(child)
        X.changed()

    s.spawn(child.name, child, run)
    s.yield_("fork")
    return child


class Process:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self._name = name or type(self).__name__
        self.daemon = bool(daemon)
        self._pid_ = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        assert self._pid_ is None, "cannot start a process twice"
        parent = X.sched.cur.proc
        c = fork(parent, "w", self, _run, self.daemon)
        self._pid_ = X.reg(c)

    def __getstate__(self):
        return dict(self.__dict__)

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, v):
        self._name = v

    @property
    def pid(self):
        return X.objs[self._pid_].pid if self._pid_ else None

    ident = pid

    @property
    def exitcode(self):
        if not self._pid_:
            return None
        e = X.objs[self._pid_].exited
        return None if e is None else (0 if e[0] == "ok" else 1 if e[0] == "exc" else e[1])

    def is_alive(self):
        X.sched.yield_("alive")
        return self._pid_ is not None and X.objs[self._pid_].exited is None

    def join(self, timeout=None):
        s = X.sched
        c = X.objs[self._pid_]
        t0 = s.now
        while c.exited is None:
            s.cur.probe_failed = True
            s.sleep(1000)
            if timeout is not None and s.now - t0 > timeout * 1e9:
                return

    def terminate(self):
        X.sched.yield_("terminate")
        X.kill(X.objs[self._pid_], -15)

    kill = terminate

    def close(self):
        pass


def _run(p):
    p.run()


# ---- queues ----------------------------------------------------------------------------
class Queue:
    def __init__(self, maxsize=0, *, ctx=None):
        self.id = X.reg(self)
        self.items = []
        self.waiters = []
        self.last = 0
        self.unfinished = 0
        self.joiners = []

    def __reduce__(self):
        return (lookup, (self.id,))

    def put(self, obj, block=True, timeout=None):
        s = X.sched
        s.yield_("queue-put")
        try:
            data = pickle.dumps(obj)
        except Exception:
            return  # the feeder thread of a real queue drops it
        self.unfinished += 1
        self.last = max(self.last + 1, s.now + X.delay("q%d" % self.id))

        def arrive():
            self.items.append(data)
            X.changed()
            if self.waiters:
                s.wake(self.waiters.pop(0))

        s.at(self.last, arrive)

    def put_nowait(self, obj):
        return self.put(obj)

    def get(self, block=True, timeout=None):
        s = X.sched
        s.yield_("queue-get")
        end = None if timeout is None else s.now + int(timeout * 1e9)
        while not self.items:
            if not block or (end is not None and s.now >= end):
                raise real_queue.Empty()
            me = s.cur
            self.waiters.append(me)
            s.block("queue %d" % self.id, None if end is None else end - s.now, real=False)
            if me in self.waiters:
                self.waiters.remove(me)
        return pickle.loads(self.items.pop(0))

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        X.sched.yield_("queue")
        return not self.items

    def qsize(self):
        X.sched.yield_("queue")
        return len(self.items)

    def full(self):
        return False

    def close(self):
        pass

    def join_thread(self):
        pass

    cancel_join_thread = join_thread


class JoinableQueue(Queue):
    def task_done(self):
        X.sched.yield_("task-done")
        if self.unfinished <= 0:
            raise ValueError("task_done() called too many times")
        self.unfinished -= 1
        if not self.unfinished:
            for t in self.joiners:
                X.sched.wake(t)
            self.joiners = []

    def join(self):
        X.sched.yield_("queue-join")
        while self.unfinished:
            self.joiners.append(X.sched.cur)
            X.sched.block("queue join %d" % self.id)


# ---- managers -------------------------------------------------------------------------------
WRITES = {"__setitem__", "__delitem__", "clear", "pop", "popitem", "setdefault", "update", "append", "extend", "insert", "remove", "set", "reverse", "sort"}


class Server:
    """The process of a manager."""

    def __init__(self, parent, registry):
        self.id = X.reg(self)
        self.obj = {}
        self.refs = {}
        self.n = 0
        self.dead = False
        self.conns = {}
        self.ready = False
        self.registry = None
        X.servers.append(self)
        self.proc = fork(parent, "m", registry, self.main, True)
        s = X.sched
        while not self.ready and not self.dead:
            s.cur.probe_failed = True
            s.sleep(1000)

    def main(self, registry):
        self.registry = registry
        self.ready = True
        X.changed()
        s = X.sched
        while True:
            s.block("serve")

    def shutdown(self):
        s = X.sched
        if self.dead:
            return
        X.kill(self.proc, 0)
        self.dead = True
        s.count("manager_shutdown")
        for c in self.conns.values():
            c.answer(("dead", None))
        X.changed()

    def conn(self):
        s = X.sched
        me = s.cur
        if self.dead:
            raise FileNotFoundError(2, "No such file or directory")
        c = self.conns.get(me.name)
        if c is None:
            c = self.conns[me.name] = Conn(self, me)
        return c

    def call(self, req):
        """Request of the current thread: (function of the server, arguments)."""
        return self.conn().call(req)

    # -- run inside of the server process
    def handle(self, data):
        try:
            kind, a = pickle.loads(data)
            if kind == "create":
                typeid, args, kw = a
                fn = self.registry[typeid]
                o = fn(*args, **kw)
                self.n += 1
                self.obj[self.n] = o
                exposed = [m for m in dir(o) if not m.startswith("_") and callable(getattr(o, m))]
                X.sched.made_progress()
                rep = ("#RETURN", (self.n, exposed))
            else:
                ident, name, args, kw = a
                o = self.obj[ident]
                try:
                    r = getattr(o, name)(*args, **kw)
                    rep = ("#RETURN", r)
                except Exception as e:
                    rep = ("#ERROR", e)
                    e = None
                if name in WRITES or type(o) not in (dict, list):
                    X.changed()
        except Exception:
            import traceback

            rep = ("#TRACEBACK", traceback.format_exc())
        try:
            return pickle.dumps(rep)
        except Exception:
            return pickle.dumps(("#UNSERIALIZABLE", "reply of %s" % rep[0]))


class Conn:
    def __init__(self, server, client):
        self.server = server
        self.client = client
        self.req = self.reply = None
        self.arrives = 0
        self.waiting = False
        self.seen = {}
        self.mark = -1
        self.t = X.sched.spawn(f"{server.proc.name}<{client.name}", server.proc, self.serve)

    def serve(self):
        s = X.sched
        while True:
            while self.req is None or s.now < self.arrives:
                s.block("serve")
            out = self.server.handle(self.req)
            if self.server.dead:
                return
            self.req = None
            s.at(s.now + X.delay(f"{self.server.proc.name}>{self.client.name}"), lambda: self.answer(("ok", out)))

    def answer(self, rep):
        if self.waiting and self.reply is None:
            self.reply = rep
            X.sched.wake(self.client)

    def call(self, req):
        s = X.sched
        data = pickle.dumps(req)
        s.yield_("rpc")
        if self.mark != s.progress:
            self.mark = s.progress
            self.seen.clear()
        n = self.seen[data] = self.seen.get(data, 0) + 1
        if n > 3:  # asking the same again although nothing happened: polling
            s.cur.probe_failed = True
            s.sleep(1000)
        if self.server.dead:
            raise ConnectionResetError(104, "Connection reset by peer")
        self.arrives = s.now + X.delay(f"{self.client.name}>{self.server.proc.name}")
        self.req, self.reply, self.waiting = data, None, True
        s.at(self.arrives, lambda: s.wake(self.t))
        while self.reply is None:
            s.block("rpc reply")
        st, out = self.reply
        self.reply, self.waiting = None, False
        if st == "dead":
            raise EOFError()
        kind, r = pickle.loads(out)
        if kind == "#RETURN":
            return r
        if kind == "#ERROR":
            raise r
        raise RemoteError(r)


def _decref(sid, ident):
    sv = X.objs.get(sid)
    if sv is None or X.sched.finished or sv.dead:
        return
    sv.refs[ident] -= 1

    def drop():
        if not sv.refs[ident]:
            sv.obj.pop(ident, None)

    X.sched.at(X.sched.now + X.world.lat_base, drop)


class ProxyMethod:
    def __init__(self, proxy, name):
        self.proxy, self.name = proxy, name

    def __call__(self, *a, **k):
        return self.proxy._callmethod(self.name, a, k)

    def __reduce__(self):
        return (getattr, (self.proxy, self.name))


class BaseProxy:
    def __init__(self, sid, ident, exposed, manager=None):
        self._sid, self._ident, self._exposed = sid, ident, exposed
        self._manager = manager
        sv = X.objs[sid]
        if ident not in sv.obj:
            raise RemoteError("KeyError: %r" % ident)
        sv.refs[ident] = sv.refs.get(ident, 0) + 1
        f = weakref.finalize(self, _decref, sid, ident)
        f.atexit = False

    def _callmethod(self, name, args=(), kwds={}):
        return X.objs[self._sid].call(("call", (self._ident, name, tuple(args), dict(kwds))))

    def __reduce__(self):
        return (rebuild, (type(self).__name__, self._sid, self._ident, self._exposed))

    def __repr__(self):
        return f"<proxy {self._sid}/{self._ident}>"


class AutoProxy(BaseProxy):
    def __getattr__(self, name):
        if name.startswith("_") or name not in self.__dict__.get("_exposed", ()):
            raise AttributeError(f"'AutoProxy' object has no attribute {name!r}")
        return ProxyMethod(self, name)


def _mk(n):
    def f(self, *a, **k):
        return self._callmethod(n, a, k)

    f.__name__ = n
    return f


class DictProxy(BaseProxy):
    pass


class ListProxy(BaseProxy):
    pass


for _n in ("__contains__", "__delitem__", "__getitem__", "__len__", "__setitem__", "clear", "copy", "get", "pop", "popitem", "setdefault", "update"):
    setattr(DictProxy, _n, _mk(_n))
for _n in ("__contains__", "__delitem__", "__getitem__", "__len__", "__setitem__", "append", "extend", "insert", "pop", "remove"):
    setattr(ListProxy, _n, _mk(_n))


def _dict_list(n):
    def f(self):
        d = self._callmethod("copy")
        return list(getattr(d, n)())

    return f


for _n in ("keys", "values", "items"):
    setattr(DictProxy, _n, _dict_list(_n))
DictProxy.__iter__ = lambda self: iter(self.keys())

KINDS = {"AutoProxy": AutoProxy, "DictProxy": DictProxy, "ListProxy": ListProxy}


def rebuild(kind, sid, ident, exposed):
    # a proxy that arrives in another process announces itself at the server
    sv = X.objs[sid]
    X.sched.yield_("incref")
    if sv.dead:
        raise FileNotFoundError(2, "No such file or directory")
    return KINDS[kind](sid, ident, exposed)


def _stop_server(sid):
    sv = X.objs.get(sid)
    if sv is not None and not X.sched.finished:
        X.sched.at(X.sched.now + X.world.lat_base, sv.shutdown)


def make_base_manager():
    class BaseManager:
        _registry = {}

        def __init__(self, *a, **k):
            self._sid = None

        @classmethod
        def register(cls, typeid, callable=None, proxytype=None, exposed=None, method_to_typeid=None, create_method=True):
            if "_registry" not in cls.__dict__:
                cls._registry = dict(cls._registry)
            cls._registry[typeid] = (callable, proxytype, exposed)
            if create_method:

                def temp(self, *args, **kwds):
                    sv = X.objs[self._sid]
                    ident, exp = sv.call(("create", (typeid, args, kwds)))
                    px = type(self)._registry[typeid][1] or AutoProxy
                    want = type(self)._registry[typeid][2]
                    return px(self._sid, ident, tuple(want or exp), manager=self)

                temp.__name__ = typeid
                setattr(cls, typeid, temp)

        def start(self, initializer=None, initargs=()):
            assert self._sid is None, "server already started"
            sv = Server(X.sched.cur.proc, {k: v[0] for k, v in type(self)._registry.items()})
            self._sid = sv.id
            self._fin = weakref.finalize(self, _stop_server, sv.id)
            self._fin.atexit = False

        def shutdown(self):
            self._fin()

        def connect(self):
            raise NotImplementedError

        def __enter__(self):
            if self._sid is None:
                self.start()
            return self

        def __exit__(self, *a):
            self.shutdown()

    class SyncManager(BaseManager):
        pass

    SyncManager.register("dict", dict, DictProxy)
    SyncManager.register("list", list, ListProxy)
    return BaseManager, SyncManager


def install(p):
    """Give process `p` its multiprocessing."""
    import multiprocessing as real_mp
    import multiprocessing.managers as real_man

    BaseManager, SyncManager = make_base_manager()

    def Manager():
        m = SyncManager()
        m.start()
        return m

    class Cur:
        name = "MainProcess" if not getattr(p, "daemonic", False) else p.name
        pid = p.pid
        authkey = b"k"

        @property
        def daemon(self):
            return getattr(p, "daemonic", False)

    cur = Cur()
    mod = procmod.Proxy(
        real_mp, Process=Process, Queue=Queue, SimpleQueue=Queue, JoinableQueue=JoinableQueue, Manager=Manager,
        cpu_count=lambda: X.world.cfg.get("host_cpus", 4), current_process=lambda: cur, get_start_method=lambda *a: "fork",
        set_start_method=lambda *a, **k: None, active_children=lambda: [],
    )
    mod.__dict__["get_context"] = lambda *a: mod
    th = p.fakes["threading"]
    for n in ("Lock", "RLock", "Event"):
        mod.__dict__[n] = getattr(th, n)
    p.fakes["multiprocessing"] = mod
    p.fakes["multiprocessing.managers"] = procmod.Proxy(real_man, BaseManager=BaseManager, SyncManager=SyncManager, DictProxy=DictProxy,
                                                        ListProxy=ListProxy, RemoteError=RemoteError)
    mod.__dict__["managers"] = p.fakes["multiprocessing.managers"]
    p.fakes["multiprocessing.queues"] = mod
    p.fakes["multiprocessing.process"] = mod
    return p
