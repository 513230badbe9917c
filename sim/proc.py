"""Simulated processes: each one gets its own copy of the code under test.

All modules of `unidist` (from /repo's working tree) and `cloudpickle` are executed once per simulated
process, with a private `__import__` that hands out simulator objects for everything nondeterministic.
"""
import builtins
import os
import random
import sys
import types

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
REAL_IMPORT = builtins.__import__

_code = {}
_paths = {}


def find(name):
    """Path of a managed module (package first), or None."""
    if name in _paths:
        return _paths[name]
    root = name.partition(".")[0]
    if root == "unidist":
        base = REPO
    elif root == "cloudpickle":
        base = os.path.dirname(os.path.dirname(CLOUDPICKLE_INIT))
    else:
        return None
    rel = os.path.join(base, *name.split("."))
    r = None
    if os.path.isfile(os.path.join(rel, "__init__.py")):
        r = (os.path.join(rel, "__init__.py"), True)
    elif os.path.isfile(rel + ".py"):
        r = (rel + ".py", False)
    elif os.path.isdir(rel):
        r = (rel, None)  # namespace package
    _paths[name] = r
    return r


def code_of(path):
    c = _code.get(path)
    if c is None:
        with open(path, "rb") as f:
            c = compile(f.read(), path, "exec", dont_inherit=True)
        _code[path] = c
    return c


def _locate_cloudpickle():
    import importlib.util

    return importlib.util.find_spec("cloudpickle").origin


CLOUDPICKLE_INIT = _locate_cloudpickle()

NATIVE = {}  # name -> module object shared by all processes (compiled extension)


def unidist_codes(subset=None):
    """All code objects compiled from the repository so far (for line preemption)."""
    out = []

    def rec(c):
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                rec(k)

    for path, c in _code.items():
        if path.startswith(REPO + "/unidist/") and (subset is None or subset(path)):
            rec(c)
    return out


class Environ(dict):
    def __setitem__(self, k, v):
        if not isinstance(k, str) or not isinstance(v, str):
            raise TypeError("str expected, not %s" % type(v if isinstance(k, str) else k).__name__)
        dict.__setitem__(self, k, v)

    def copy(self):
        return Environ(self)


class Proxy(types.ModuleType):
    """Module that overrides some attributes of a real one."""

    def __init__(self, real, **over):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


class NullLogger:
    def __init__(self, name):
        self.name = name
        self.level = 0
        self.handlers = []

    def hasHandlers(self):
        return bool(self.handlers)

    def addHandler(self, h):
        self.handlers.append(h)

    def setLevel(self, lv):
        self.level = lv

    def isEnabledFor(self, lv):
        return bool(self.level) and lv >= self.level

    def debug(self, *a, **k):
        pass

    info = warning = error = critical = exception = log = warn = debug


class NullHandlerF:
    def __init__(self, *a, **k):
        pass

    def setFormatter(self, f):
        pass

    def setLevel(self, lv):
        pass


class SimProc:
    """One simulated OS process."""

    def __init__(self, world, name, host, environ, fakes=()):
        self.world = world
        self.sched = world.sched
        self.name = name
        self.host = host
        self.threads = []
        self.stalled_until = 0
        self.sysmods = {}
        self.managed = ("unidist", "cloudpickle")
        self.environ = Environ(environ)
        self.atexit = []
        self.signals = {}
        self.exited = None  # None | ("ok", code) | ("exc", text)
        self.clock_offset = 0  # wall clock: jumps both ways
        self.mono_offset = 0  # monotonic clocks: may leap forward, never go back
        self.pid = world.next_pid()
        self.loggers = {}
        self.uuid_n = 0
        self.fakes = {}
        self.finalized_mpi = False
        self._loading = []
        self.pending_signal = None
        self.builtins = dict(builtins.__dict__)
        self.builtins["__import__"] = self.import_
        self.main = types.ModuleType("__main__")
        self.main.__dict__["__builtins__"] = self.builtins
        self.sysmods["__main__"] = self.main
        self._make_fakes()

    # ---- module handling ---------------------------------------------
    def load_modules(self, old):
        m = sys.modules
        if old is not None:
            for k in old.sysmods:
                m.pop(k, None)
        m.update(self.sysmods)

    def add_module(self, name, mod):
        self.sysmods[name] = mod
        if self.sched.loaded is self:
            sys.modules[name] = mod

    def get_module(self, name):
        m = self.sysmods.get(name)
        if m is not None:
            return m
        if name in NATIVE:
            nat = self.wrap_native(name)
            self.add_module(name, nat)
            self._bind(name, nat)
            return nat
        parent = name.rpartition(".")[0]
        if parent:
            self.get_module(parent)
            m = self.sysmods.get(name)
            if m is not None:
                return m
        f = find(name)
        if f is None:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        path, is_pkg = f
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.builtins
        if is_pkg is None:
            m.__path__ = [path]
            m.__package__ = name
            self.add_module(name, m)
            self._bind(name, m)
            return m
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = parent
        self.add_module(name, m)
        if name == "unidist._version":
            m.get_versions = lambda: {"version": "0+sim", "full-revisionid": None, "dirty": None, "error": None, "date": None}
            self._bind(name, m)
            return m
        try:
            exec(code_of(path), m.__dict__)
        except BaseException:
            self.sysmods.pop(name, None)
            if self.sched.loaded is self:
                sys.modules.pop(name, None)
            raise
        self._bind(name, m)
        return m

    def _bind(self, name, m):
        parent, _, leaf = name.rpartition(".")
        if parent:
            setattr(self.sysmods[parent], leaf, m)

    def wrap_native(self, name):
        real = NATIVE[name]
        sched = self.sched
        over = {}
        for k in dir(real):
            v = getattr(real, k)
            if callable(v) and not k.startswith("_"):

                def w(*a, _v=v, _k=k, **kw):
                    sched.yield_(_k)
                    if _k == "parallel_memcopy" and a:
                        a = (self.placed(a[0]),) + a[1:]
                    try:
                        return _v(*a, **kw)
                    finally:
                        sched.yield_(_k)

                over[k] = w
        p = Proxy(real, **over)
        return p

    def placed(self, src):
        """The same bytes at an address whose alignment the simulator chose."""
        mv = memoryview(src)
        n = mv.nbytes
        if n == 0 or mv.ndim != 1 or mv.itemsize != 1:
            return src
        want = self.sched.ch.below("align", self.name, 64)
        buf = np.empty(n + 128, dtype=np.uint8)
        off = (want - buf.ctypes.data) % 64
        out = buf[off : off + n]
        out[:] = np.frombuffer(mv, dtype=np.uint8)
        return out

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__")
            if pkg is None:
                pkg = (globals or {}).get("__name__", "").rpartition(".")[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            absname = f"{pkg}.{name}" if name else pkg
        else:
            absname = name
        root = absname.partition(".")[0]
        if absname in self.fakes:
            if fromlist or "." not in absname:
                return self.fakes[absname]
            return self.fakes.get(root) or REAL_IMPORT(root)
        if root in self.managed:
            m = self.get_module(absname)
            if fromlist:
                for a in fromlist:
                    if a != "*" and not hasattr(m, a):
                        try:
                            self.get_module(f"{absname}.{a}")
                        except ModuleNotFoundError as e:
                            if e.name != f"{absname}.{a}":
                                raise
                return m
            return m if level else self.sysmods[root]
        if root in self.fakes and "." in absname:
            # submodule of a faked package that is not faked itself
            return REAL_IMPORT(name, globals, locals, fromlist, level)
        return REAL_IMPORT(name, globals, locals, fromlist, level)

    # ---- fakes ---------------------------------------------------------
    def now_s(self):
        return (self.sched.now + self.mono_offset) / 1e9

    def _make_fakes(self):
        import gc as real_gc
        import logging as real_logging
        import os as real_os
        import signal as real_signal
        import socket as real_socket
        import time as real_time
        import uuid as real_uuid
        import multiprocessing as real_mp
        import atexit as real_atexit

        sched, world = self.sched, self.world
        f = self.fakes

        def clock():
            return self.now_s()

        def sleep(s):
            if s < 0:
                raise ValueError("sleep length must be non-negative")
            sched.sleep(int(s * 1e9))

        f["time"] = Proxy(
            real_time,
            sleep=sleep,
            time=lambda: 1.7e9 + (sched.now + self.clock_offset) / 1e9,
            perf_counter=clock,
            monotonic=clock,
            process_time=clock,
            time_ns=lambda: int(1.7e18) + sched.now + self.clock_offset,
            perf_counter_ns=lambda: sched.now + self.mono_offset,
            monotonic_ns=lambda: sched.now + self.mono_offset,
        )

        class Stat:
            f_bsize = 4096

        def os_open(path, flags, mode=0o777, **kw):
            if path == "/dev/shm":
                return 7777
            return real_os.open(path, flags, mode, **kw)

        def os_close(fd):
            if fd != 7777:
                real_os.close(fd)

        def fstatvfs(fd):
            if fd == 7777:
                st = Stat()
                st.f_bavail = world.cfg.get("shm_bytes", 1 << 20) // 4096
                return st
            return real_os.fstatvfs(fd)

        def statvfs(path):
            if path == "/dev/shm":
                return fstatvfs(7777)
            return real_os.statvfs(path)

        def os_exit(code=0):
            self.hard_exit(code)

        f["os"] = Proxy(
            real_os,
            environ=self.environ,
            getenv=lambda k, d=None: self.environ.get(k, d),
            open=os_open,
            close=os_close,
            fstatvfs=fstatvfs,
            statvfs=statvfs,
            getpid=lambda: self.pid,
            cpu_count=lambda: world.cfg.get("host_cpus", 4),
            _exit=os_exit,
        )
        f["socket"] = Proxy(
            real_socket,
            gethostname=lambda: self.host,
            gethostbyname=lambda h: world.ip_of(h),
            getfqdn=lambda h="": self.host,
        )

        class VM:
            total = world.cfg.get("ram_bytes", 2 << 20)
            available = total

        f["psutil"] = Proxy(types.ModuleType("psutil"), virtual_memory=lambda: VM, cpu_count=lambda logical=True: world.cfg.get("host_cpus", 4))

        def set_signal(sig, h):
            old = self.signals.get(int(sig), real_signal.SIG_DFL)
            self.signals[int(sig)] = h
            return old

        f["signal"] = Proxy(real_signal, signal=set_signal, getsignal=lambda s: self.signals.get(int(s), real_signal.SIG_DFL))

        def reg(fn, *a, **k):
            self.atexit.append((fn, a, k))
            return fn

        def unreg(fn):
            self.atexit[:] = [x for x in self.atexit if x[0] != fn]

        f["atexit"] = Proxy(real_atexit, register=reg, unregister=unreg)
        f["gc"] = Proxy(
            real_gc, enable=lambda: None, disable=lambda: None, isenabled=lambda: True, collect=lambda *a: sched._run_gc() or 0
        )

        def get_logger(name=None):
            lg = self.loggers.get(name)
            if lg is None:
                lg = self.loggers[name] = NullLogger(name)
            return lg

        f["logging"] = Proxy(real_logging, getLogger=get_logger, FileHandler=NullHandlerF)

        def uuid4():
            self.uuid_n += 1
            r = random.Random(f"{self.name}/{self.uuid_n}")
            return real_uuid.UUID(int=r.getrandbits(128), version=4)

        f["uuid"] = Proxy(real_uuid, uuid4=uuid4, uuid1=uuid4)
        f["multiprocessing"] = Proxy(real_mp, cpu_count=lambda: world.cfg.get("host_cpus", 4))
        for n, m in list(f.items()):
            if n in ("psutil",):
                continue
        from . import simthreading

        f["threading"] = simthreading.make(self)

    # ---- life ------------------------------------------------------------
    def start(self, source, label="<main>", argv=None):
        code = compile(source, label, "exec", dont_inherit=True) if isinstance(source, str) else source

        def main():
            status = ("ok", 0)
            try:
                exec(code, self.main.__dict__)
            except SystemExit as e:
                c = e.code
                status = ("ok", 0 if c is None else c)
            except BaseException as e:
                if type(e).__name__ == "SimKill":
                    status = ("killed", 0)
                else:
                    import traceback

                    status = ("exc", "".join(traceback.format_exception(e))[-4000:])
                    self.world.on_crash(self, e, status[1])
                e = None
            status = self.run_atexit(status)
            self.exited = status
            self.sched.ev("exit", self.name, status[0])
            self.world.on_exit(self)

        return self.sched.spawn(self.name, self, main)

    def run_atexit(self, status):
        while self.atexit:
            fn, a, k = self.atexit.pop()
            try:
                fn(*a, **k)
            except SystemExit:
                pass
            except BaseException as e:
                import traceback

                txt = "".join(traceback.format_exception(e))[-4000:]
                self.world.on_crash(self, e, txt)
                if status[0] == "ok":
                    status = ("exc", txt)
        return status

    def hard_exit(self, code):
        self.exited = ("hard", code)
        self.world.on_exit(self)
        from .kernel import SimStop

        raise SimStop()
